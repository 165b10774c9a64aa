from hlib import *

BOUNDS = ("a server holding one metric of each kind; one (quick) or two "
          "(thorough) messages of any kind whose value, rate or size is any "
          "number or one of the listed spellings of infinity, nan, zero and "
          "very large or small numbers; two further flushes, percentages 50, "
          "90 and 100")

KINDS = ["c", "g", "m", "ms", "sli", "pd"]
VALUES = ["inf", "-inf", "nan", "Infinity", "-Infinity", "+inf", "NaN", "-nan",
          "1e400", "-1e400", "1e308", "-1e308", "1e-400", "-0", "-0.0",
          "99999999999999999999", "-1", "error"]
THIRDS = {"c": ["@inf", "@nan", "@-1", "@1e-400", "@1e-320", "@1e308", "@0.1"],
          "sli": ["inf", "nan", "-inf", "-1", "0", "1e400"]}
SAMPLES = dict(SAMPLE, pd="x")


class Logger(object):
    def info(self, message):
        pass


def server(env, mode, dump, clock):
    from twisted.plugins.distinct_plugin import DistinctMetricFactory
    rules = """
        *o* => slow IF above 100
        *o* => odd IF below 10 0.5
        *o* => mid IF between 1 5
    """
    plugins = [sli_plugin("\n".join(
        [l.strip() for l in rules.strip().split("\n")])),
        DistinctMetricFactory()]
    if not dump:
        return make(env, mode, clock, plugins=plugins)
    from txstatsd.server.loggingprocessor import LoggingMessageProcessor
    return LoggingMessageProcessor(Logger(), time_function=clock,
                                   plugins=plugins)


def special(env, mode, dump, kind, how, percent, messages):
    clock = Clock(1000.0)
    env.set_randint(lambda a, b: 77)
    ps = [server(env, mode, dump, clock) for i in (0, 1)]
    old = env.key("old")
    for p in ps:
        for k in KINDS:
            p.process(old + "." + k + ":" + SAMPLES[k] + "|" + k)
    clock.now = 1004.0
    key = "it." + kind
    if env.flag("known"):
        key = old + "." + kind
    for i in range(messages):
        if how == "value":
            text = env.choice("value", VALUES)
            third = ""
            if kind in THIRDS and env.flag("with"):
                third = "|" + THIRDS[kind][len(THIRDS[kind]) - 1]
        else:
            text, value = env.number_text("value")
            third = ""
            if kind in THIRDS:
                third = "|" + env.choice("third", THIRDS[kind])
        ps[0].process(key + ":" + text + "|" + kind + third)
    for turn in (0, 1):
        clock.now = clock.now + 10.0
        a = flush(ps[0], 10000, percent)
        b = flush(ps[1], 10000, percent)
        same_reports(env, others(a, key), others(b, key),
                     "the other metrics, flush %d" % (turn + 1))
    # and the metric itself still takes part
    for p in ps:
        p.process(key + ":" + SAMPLES[kind] + "|" + kind)
    clock.now = clock.now + 10.0
    a = flush(ps[0], 10000, percent)
    env.check(len([n for n, v, t in a if key in n]) > 0,
              "the metric is still reported")
    same_reports(env, others(a, key), others(flush(ps[1], 10000, percent),
                                             key), "the other metrics later")


def others(out, key):
    return [(n, v, t) for n, v, t in body(out) if key not in n]


SCENARIOS = []
for k in KINDS:
    for m, d in ((COMPLIANT, False), (CONFIGURABLE, False),
                 (CONFIGURABLE, True)):
        SCENARIOS.append((special, {"mode": m, "dump": d, "kind": k,
                                    "how": "value", "percent": 90,
                                    "messages": 1}, "quick"))
        SCENARIOS.append((special, {"mode": m, "dump": d, "kind": k,
                                    "how": "value", "percent": 100,
                                    "messages": 2}, "thorough"))
        if k in THIRDS or k == "ms":
            SCENARIOS.append((special, {"mode": m, "dump": d, "kind": k,
                                        "how": "third", "percent": 50,
                                        "messages": 1}, "quick"))
    SCENARIOS.append((special, {"mode": m, "dump": False, "kind": k,
                                "how": "value", "percent": 90,
                                "messages": 2}, "thorough"))
