"""Reference definition of the state diagram tool (see property C40)."""
import sys

class Edge:
    def __init__(self, start, edge_name, end, style="normal"):
        self.start = start
        self.edge_name = edge_name
        self.end = end
        self.style = style

def extract_first_wrapped(text, key):
    """the parenthesised text after the first occurrence of key, parentheses included; nothing if key does not occur"""
    if key not in text:
        return ""
    first = text.find(key)
    depth = 0
    while depth == 0:
        first += 1
        if text[first] == "(":
            depth += 1
    last = first + 1
    while depth != 0:
        last += 1
        if text[last] == "(":
            depth += 1
        if text[last] == ")":
            depth -= 1
    return text[first:last + 1]

def extract_all_wrapped(text, key):
    """every parenthesised text after an occurrence of key, each search starting behind the previous find"""
    found = []
    at = 0
    while at < len(text):
        one = extract_first_wrapped(text[at:], key)
        if one == "":
            break
        found.append(one)
        at = at + text[at:].index(one) + len(one)
    return found

def last_name(s):
    return s.strip().split("::")[-1]

def extract_transitions(file_string):
    table = extract_first_wrapped(file_string, "USM_TABLE")
    error_state = last_name(table.split(",")[1])
    edges = []
    for state_string in extract_all_wrapped(table, "USM_STATE"):
        start = last_name(state_string.split(",")[1])
        own = []
        handled = False
        for mapping in extract_all_wrapped(state_string, "USM_MAP"):
            parts = mapping.replace("(", " ").replace(")", " ").split(",")
            name = last_name(parts[0])
            own.append(Edge(start, name, last_name(parts[1])))
            if name == "ERROR":
                handled = True
        if not handled:
            for e in own:
                if e.start == start and e.end == error_state:
                    e.edge_name += "\\nERROR"
                    handled = True
                    break
        if not handled:
            own.append(Edge(start, "ERROR", error_state, "fallback"))
        edges.extend(own)
    return edges

def make_dot_file_string(edges):
    lines = ["digraph {"]
    for e in edges:
        if e.style == "normal":
            shape = "solid"
            weight = "1"
        elif e.style == "fallback":
            shape = "dotted"
            weight = "0.1"
        else:
            shape = "dashed"
            weight = "1"
        lines.append('    "' + e.start + '" -> "' + e.end + '" [label="' + e.edge_name + '", style="' + shape + '", weight=' + weight + "]")
    lines.append("}")
    return "\n".join(lines)

def main():
    arguments = sys.argv[1:]
    if len(arguments) == 0:
        print("Usage: generate_flow_diagram.py input_file [output_file]")
        exit(1)
    with open(arguments[0], "r") as source:
        text = source.read()
    dot = make_dot_file_string(extract_transitions(text))
    with open(arguments[1] if len(arguments) == 2 else arguments[0] + ".dot", "w") as target:
        target.write(dot)
