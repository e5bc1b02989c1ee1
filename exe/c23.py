import view


def run(plan, out):
    view.run(plan, out, "C23")


ISOLATE = False
