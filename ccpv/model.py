"""Independent reference model of an indentation-structured configuration."""


def indent_of(line):
    return len(line) - len(line.lstrip())


def is_blank(line):
    return line.strip() == ""


def is_comment(line, comment):
    s = line.lstrip()
    return s != "" and s[0] in comment


class Tree:
    """lines: texts already without trailing whitespace; parent[i] is an index or None."""

    def __init__(self, lines, comment="!"):
        self.lines = [x.rstrip() for x in lines]
        n = len(self.lines)
        self.indent = [indent_of(x) for x in self.lines]
        self.cfg = [(not is_blank(x)) and (not is_comment(x, comment)) for x in self.lines]
        self.comment = [is_comment(x, comment) for x in self.lines]
        self.parent = [None] * n
        for i in range(n):
            if self.indent[i] == 0:
                continue
            if self.comment[i] and i > 0 and self.indent[i - 1] > self.indent[i]:
                continue
            j = i - 1
            while j >= 0:
                if self.cfg[j] and self.indent[j] < self.indent[i]:
                    self.parent[i] = j
                    break
                j -= 1
        # A closing brace belongs to the line with the last opening brace which is not closed yet.
        opened = []
        for i in range(n):
            if not self.cfg[i]:
                continue
            if self.lines[i].endswith("{"):
                opened.append(i)
            elif self.lines[i].lstrip().startswith("}") and opened:
                self.parent[i] = opened.pop()
        self._kids()

    def _kids(self):
        self.children = [[] for _ in self.lines]
        for i, p in enumerate(self.parent):
            if p is not None:
                self.children[p].append(i)

    def keep(self, idxs):
        """Restrict to the given (sorted) indexes, renumbering; parents must be kept."""
        t = Tree.__new__(Tree)
        new = {old: k for k, old in enumerate(idxs)}
        t.lines = [self.lines[i] for i in idxs]
        t.indent = [self.indent[i] for i in idxs]
        t.cfg = [self.cfg[i] for i in idxs]
        t.comment = [self.comment[i] for i in idxs]
        t.parent = [None if self.parent[i] is None else new[self.parent[i]] for i in idxs]
        t._kids()
        return t

    def ancestors(self, i):
        out = []
        p = self.parent[i]
        while p is not None:
            out.append(p)
            p = self.parent[p]
        return out  # nearest first

    def descendants(self, i):
        out = []
        stack = list(self.children[i])
        while stack:
            k = stack.pop()
            out.append(k)
            stack.extend(self.children[k])
        return sorted(out)

    def path(self, i):
        return [self.lines[j] for j in reversed(self.ancestors(i))] + [self.lines[i]]


def delivered(lines, ignore_blank, factory, comment="!"):
    """Model of which lines of an input list a parse keeps (no banners/macros): (tree, original positions).

    The position (line number) is that in the list the parser numbers: zero-length lines are removed
    before numbering when blank lines are ignored and the untyped parser is used.
    """
    src = list(lines)
    if ignore_blank and not factory:
        src = [x for x in src if len(x) != 0]
    full = Tree(src, comment)
    if ignore_blank:
        idx = [i for i, x in enumerate(full.lines) if not is_blank(x)]
    else:
        idx = list(range(len(full.lines)))
    return full.keep(idx), idx
