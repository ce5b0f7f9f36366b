# Techniques and notes of the checks that differ from the general ones.
_CASES = "Every case within the bounds named in the evidence is run on the real code and judged by %s. Trusts %s. Says nothing beyond the bounds."
_SCHED = "Every schedule with at most the stated number of preemptions is run on the real code in simulated time, switching at lock, channel, output and environment calls. Trusts the scheduler, which replaces the import of sync at build time, and the terminal emulator. Says nothing about data races inside a stretch without such calls, nor beyond the bounds."
def _cases(what, oracle, trust):
    return ("exhaustive enumeration of " + what + " on the real code", _CASES % (oracle, trust))
SPECIAL = {
    "C08": _cases("bounded strings over classes of code points, and of all code points,", "text, division into characters and cursor steps of the reference", "the reference division into characters"),
    "C09": _cases("bounded strings over classes of code points, under each terminal profile,", "agreement of the reported widths with each other and with an emulated terminal", "the emulator and the reading of the width rules"),
    "C10": _cases("bounded strings of control and composing characters on every route to the screen", "parsing everything written", "the parser of terminal sequences"),
    "C12": _cases("directory trees of bounded shape", "reading the directories directly", "the operating system's directory listing"),
    "C13": _cases("bounded inputs in all chunkings", "putting the keys together again", "the scripted terminals"),
    "C14": _cases("bounded sequences of binding operations", "a model of the two key maps", "that model"),
    "C15": _cases("failing environment calls, by index,", "what was opened, closed, returned and written", "the supplied environment"),
    "C16": ("exhaustive exploration of schedules (bounded preemptions) of editor and size notifications on the real code", _SCHED),
    "C21": _cases("bounded pairs of inputs", "comparison with the same input in a new editor", "the emulator"),
    "C22": _cases("bounded sequences of buffer operations", "a model of the line and the emulated screen", "the reference model and the emulator"),
    "C23": ("exhaustive exploration of schedules (bounded preemptions) of polling terminals on the real code", _SCHED),
    "C24": _cases("subsets of unset fields and kinds of output", "comparison with the fields set to their defaults", "the emulator"),
}
