""" Collecting what a check decided """


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.items = []          # (status, rule, what, key, where)
        self.analysed = {}       # name -> set of things looked at
        self._seen = set()

    def _add(self, status, rule, what, key, where):
        k = (status, rule, what, key, where)
        if k in self._seen:
            return
        self._seen.add(k)
        self.items.append(k)

    def ok(self, rule, what, where=''):
        self._add('ok', rule, what, '', where)

    def bad(self, rule, what, where='', key=''):
        self._add('violation', rule, what, key or rule, where)

    def und(self, rule, what, where=''):
        self._add('undecided', rule, what, '', where)

    def decide(self, verdict, rule, what, where='', bad=None, key=''):
        """ verdict True / False / None """
        if verdict is True:
            self.ok(rule, what, where)
        elif verdict is False:
            self.bad(rule, bad or what, where, key)
        else:
            self.und(rule, what, where)

    def saw(self, kind, *names):
        self.analysed.setdefault(kind, set()).update(names)

    def by(self, status):
        return [i for i in self.items if i[0] == status]
