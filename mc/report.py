"""Reading what punx prints."""
import re


def tables(text):
    """the simple (RST) tables of a text, each a list of rows of cells; the first row has the labels"""
    out, lines, k = [], text.split("\n"), 0
    while k < len(lines):
        if re.fullmatch(r"=+( =+)*", lines[k]) is None:
            k += 1
            continue
        rule = lines[k]
        spans, pos = [], 0
        for part in rule.split(" "):
            spans.append((pos, pos + len(part)))
            pos += len(part) + 1
        rows, rules = [], 1
        k += 1
        while k < len(lines) and rules < 3:
            if lines[k] == rule:
                rules += 1
            else:
                rows.append([lines[k][a:b if b < spans[-1][1] else None].strip() for a, b in spans])
            k += 1
        out.append(rows)
    return out


def findings(text):
    """rows (address, status, test, comment) of the table of findings"""
    for t in tables(text):
        if t and t[0][:2] == ["address", "status"]:
            return [tuple(r) for r in t[1:]]
    return None


def statistics(text):
    """status -> count"""
    for t in tables(text):
        if t and t[0][:2] == ["status", "count"]:
            return {r[0]: int(r[1]) for r in t[1:] if r[0]}
    return None


def average(text):
    m = re.search(r"<finding>=(-?[\d.]+) of (\d+) items", text)
    return (float(m.group(1)), int(m.group(2))) if m else None
