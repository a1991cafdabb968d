"""Plans: the workload and the faults of one run as lines of text."""


class Line(dict):
    def __init__(self, kind, /, **kw):
        super(Line, self).__init__((k, str(v)) for k, v in kw.items())
        self.kind = kind

    def __setitem__(self, k, v):
        super(Line, self).__setitem__(k, str(v))

    def __str__(self):
        return " ".join([self.kind] + ["%s=%s" % (k, v) for k, v in self.items()])

    @staticmethod
    def parse(s):
        p = s.split()
        l = Line(p[0])
        for x in p[1:]:
            k, _, v = x.partition("=")
            l[k] = v
        return l


class Plan(object):
    def __init__(self, lines=()):
        self.lines = list(lines)

    def add(self, kind, /, **kw):
        l = Line(kind, **kw)
        self.lines.append(l)
        return l

    def all(self, kind):
        return [l for l in self.lines if l.kind == kind]

    def first(self, kind):
        for l in self.lines:
            if l.kind == kind:
                return l
        return None
