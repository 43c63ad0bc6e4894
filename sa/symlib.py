"""SQL symbol libraries: sections [name:type:method] of a .sql file, as the documentation of postgresql.lib defines them."""
import os
import re

from .program import AnalysisBroken, REPO


class Section:
    def __init__(self, name, type, method, ref, line, extra):
        self.name, self.type, self.method, self.ref, self.line, self.extra = name, type, method, ref, line, extra
        self.lines = []
        self.text = ""


def sections(p, rel, lines=None):
    """-> name: Section; a later section of a name replaces the former one"""
    if lines is None:
        path = os.path.join(REPO, rel)
        if not os.path.exists(path):
            raise AnalysisBroken("%s vanished" % rel)
        lines = open(path, encoding="utf-8").read().splitlines(True)
    r, cur, order = {}, None, []
    for n, line in enumerate(lines, 1):
        s = line.strip()
        if s.startswith("[") and s.endswith("]"):
            parts = s[1:-1].split(":")
            name = parts[0]
            cur = Section(name.lstrip("&"), parts[1] if len(parts) > 1 else "", parts[2] if len(parts) > 2 else "", name.startswith("&"), n, parts[3:])
            order.append(cur)
            r.setdefault("*dups", [])
            if cur.name in r:
                r["*dups"].append(cur)
            r[cur.name] = cur
        elif cur is not None:
            m = re.match(r"\*\[([^\]]*)\](.*)$", line, re.S)
            if m:
                if m.group(1) not in r:
                    cur.lines.append("")
                    cur.extra.append("*" + m.group(1))
                else:
                    cur.lines.append(r[m.group(1)].text + m.group(2))
            else:
                cur.lines.append(line)
            i = 0
            while i < len(cur.lines) and cur.lines[i].startswith("-- "):
                i += 1
            cur.text = "".join(cur.lines[i:])
    r["*order"] = order
    r.setdefault("*dups", [])
    return r
