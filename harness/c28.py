from hlib import *

BOUNDS = ("memory files of up to 2 (quick) or 3 (thorough) lines in any "
          "order plus one of all lines, load averages of any size, network "
          "files of up to 2 interfaces with up to 5 columns on either side "
          "in any order; amounts up to 1e15, with spaces of any of the "
          "usual widths")
ASSUMES = ["the files are in the format of the Linux kernel: no tabs, no "
           "colon in the name of an interface, kB and mB are the only units "
           "of the known labels"]

LABELS = ["MemTotal", "MemFree", "Buffers", "Cached", "SwapCached",
          "SwapTotal", "SwapFree"]
OTHERS = ["Active", "Active(anon)", "MemAvailable", "VmallocTotal",
          "HugePages_Total", "cached", "MemTotalFree", "Swap"]
REST = ["Inactive", "Mlocked", "Dirty", "Writeback", "AnonPages", "Mapped",
        "Shmem", "Slab", "KernelStack", "PageTables", "NFS_Unstable",
        "Committed_AS", "VmallocUsed", "HugePages_Free", "DirectMap4k"]
UNITS = {"kB": 1024, "mB": 1024 * 1024, "": 1}


def same(env, got, expected, label):
    env.check(len(got) == len(expected), label + ": nothing else")
    for k in expected:
        env.check(k in got, label + ": present")
        if k in got:
            env.equal(got[k], expected[k], label + ": exact")


def line(env, label, unit, gap):
    text, amount = env.number_text("amount", 0, 10 ** 15, whole=True)
    s = label + ":" + gap + text
    if unit:
        s = s + " " + unit
    return s, amount * UNITS[unit]


def meminfo(env, lines, prefixed):
    from txstatsd.process import parse_meminfo
    data = ""
    expected = {}
    prefix = "sys.mem"
    if prefixed:
        prefix = env.key("prefix")
    left = list(LABELS)
    for i in range(lines):
        known = env.flag("known")
        gap = env.choice("gap", [" ", "          "])
        unit = env.choice("unit", ["kB", "", "mB"])
        if known:
            label = env.choice("label", left)
            left.remove(label)
            s, amount = line(env, label, unit, gap)
            expected[prefix + "." + label] = amount
        else:
            s, amount = line(env, env.choice("other", OTHERS), unit, gap)
        data = data + s + "\n"
    if env.flag("unended"):
        data = data[:-1]
    if prefixed:
        got = parse_meminfo(data, prefix)
    else:
        got = parse_meminfo(data)
    same(env, got, expected, "memory")
    for k in sorted(expected):
        env.observe(k.split(".")[-1], expected[k])


def whole(env):
    """A file of every label, others in between."""
    from txstatsd.process import parse_meminfo
    data = ""
    expected = {}
    order = LABELS
    if env.flag("other order"):
        order = LABELS[::-1]
    for i in range(len(REST)):
        s, _ = line(env, REST[i], "kB" if i % 4 else "", " " * (12 - i % 5))
        data = data + s + "\n"
        if i % 2 and i // 2 < len(order):
            label = order[i // 2]
            s, amount = line(env, label, "kB", " " * (14 - len(label)))
            expected["sys.mem." + label] = amount
            data = data + s + "\n"
    same(env, parse_meminfo(data), expected, "memory")


def loadavg(env, prefixed):
    from txstatsd.process import parse_loadavg
    texts = []
    values = []
    for i in range(3):
        text, value = env.number_text("load", 0.0, 1000000.0)
        texts.append(text)
        values.append(value)
    gap = env.choice("gap", [" ", "  "])
    rest = env.choice("rest", [" 1/80 11206\n", " 1/80 11206", "\n", ""])
    data = gap.join(texts) + rest
    prefix = "sys.loadavg"
    if prefixed:
        prefix = env.key("prefix")
        got = parse_loadavg(data, prefix)
    else:
        got = parse_loadavg(data)
    same(env, got, {prefix + ".oneminute": values[0],
                    prefix + ".fiveminutes": values[1],
                    prefix + ".fifthteenminutes": values[2]}, "load")


def arranged(env, columns, n):
    """Some of the columns, in any order, both that matter among them."""
    left = list(columns)
    out = []
    for i in range(n):
        c = env.choice("column", left)
        left.remove(c)
        out.append(c)
    if "bytes" not in out or "packets" not in out:
        env.skip()
    return out


def netdev(env, receive, transmit, devices, prefixed):
    from txstatsd.process import parse_netdev
    columns = ["bytes", "packets", "errs", "fifo", "multicast"]
    if receive is None:
        recv = ["bytes", "packets", "errs", "drop", "fifo", "frame",
                "compressed", "multicast"]
    else:
        recv = arranged(env, columns, receive)
    if transmit is None:
        send = ["bytes", "packets", "errs", "drop", "fifo", "colls",
                "carrier", "compressed"]
    else:
        send = arranged(env, columns, transmit)
    wide = env.choice("wide", [" ", "    "])
    data = ("Inter-|   Receive                  |  Transmit\n face |" +
            wide.join(recv) + "|" + wide.join(send) + "\n")
    expected = {}
    prefix = "sys.net"
    if prefixed:
        prefix = env.key("prefix")
    names = ["lo", "eth0", "eth0.1"][:devices]
    if prefixed:
        names[0] = env.key("device")
        for n in names[1:]:
            env.assume(names[0] != n)
    for name in names:
        texts = []
        values = {}
        for side, cols in (("recv", recv), ("send", send)):
            for c in cols:
                text, value = env.number_text("amount", 0, 10 ** 15,
                                              whole=True)
                texts.append(text)
                values[side, c] = value
        data = (data + "  " + name + ":" + env.choice("gap", ["", " "]) +
                wide.join(texts) + "\n")
        base = prefix + "." + name
        expected[base + ".bytes.received"] = values["recv", "bytes"]
        expected[base + ".bytes.sent"] = values["send", "bytes"]
        expected[base + ".packets.received"] = values["recv", "packets"]
        expected[base + ".packets.sent"] = values["send", "packets"]
    if env.flag("blank line"):
        data = data + "\n"
    if prefixed:
        got = parse_netdev(data, prefix)
    else:
        got = parse_netdev(data)
    same(env, got, expected, "network")


def from_files(env):
    """The reporters of the system read the files anew every time."""
    from txstatsd import process
    paths = ["/proc/meminfo", "/proc/loadavg"]
    for turn in (0, 1):
        s, amount = line(env, "MemFree", "kB", "  ")
        env.set_file("/proc/meminfo", "MemTotal: 12 kB\n" + s + "\n")
        same(env, process.SYSTEM_STATS[0](),
             {"sys.mem.MemTotal": 12 * 1024, "sys.mem.MemFree": amount},
             "memory of the system")
        text, value = env.number_text("load", 0.0, 1000000.0)
        env.set_file("/proc/loadavg", text + " 0.5 0.25 1/80 11206\n")
        same(env, process.SYSTEM_STATS[1](),
             {"sys.loadavg.oneminute": value, "sys.loadavg.fiveminutes": 0.5,
              "sys.loadavg.fifthteenminutes": 0.25}, "load of the system")


SCENARIOS = [
    (meminfo, {"lines": 1, "prefixed": True}, "quick"),
    (meminfo, {"lines": 2, "prefixed": False}, "quick"),
    (meminfo, {"lines": 3, "prefixed": False}, "thorough"),
    (whole, {}, "quick"),
    (loadavg, {"prefixed": False}, "quick"),
    (loadavg, {"prefixed": True}, "quick"),
    (netdev, {"receive": 3, "transmit": 2, "devices": 1, "prefixed": False},
     "quick"),
    (netdev, {"receive": 2, "transmit": 3, "devices": 1, "prefixed": True},
     "quick"),
    (netdev, {"receive": 2, "transmit": 2, "devices": 2, "prefixed": True},
     "quick"),
    (netdev, {"receive": None, "transmit": None, "devices": 2,
              "prefixed": False}, "quick"),
    (netdev, {"receive": 5, "transmit": 3, "devices": 2, "prefixed": True},
     "thorough"),
    (netdev, {"receive": 3, "transmit": 5, "devices": 3, "prefixed": False},
     "thorough"),
    (from_files, {}, "quick"),
]
