from . import inter, session


def run(s, tr):
    (inter if s['gen'] == 'GenC23' else session).run(s, tr)
