ORACLE = {
"R01": "a table of the 25 policies as bit-level functions of (old mirror, bus data), written from the documentation, compared bit by bit with the mirror.",
"R02": "the same policy table for set() (folded over the history) and for a hardware field; the value update sends is given to hardware field and predict and both results compared with the desired value.",
"R03": "field positions from the layout; every register-level result is compared with shifting and masking of the field values in the harness.",
"R04": "the address formula (base + offset x unit, one address per bus word, endianness order) evaluated by the harness with the same symbolic bases and offsets.",
"R05": "a recording bus driver with device registers; expected beat list from the register's address list.",
"R06": "the mismatch condition over field attributes (access, compare, volatile) and symbolic hardware value; status of each beat symbolic.",
"R07": "an address-to-value dictionary behind the bus, with symbolic location, data and mode; range conditions as arithmetic.",
"R08": "a trace of hook calls compared with the documented list; hooks replace value/status by symbolic ones.",
"R09": "interval arithmetic over the granted regions with symbolic start, length and existing regions.",
"R10": "the harness's own list of registers below each block; per-register devices that count accesses.",
"R11": "a Python list of bounded length as the reference FIFO.",
"R12": "index and data device registers; the bus trace is compared beat by beat.",
"R13": "a reference table of pending beats per register; symbolic order of beats, directions, data.",
"R14": "a device which follows or, in one symbolic respect, departs from the model; error count zero or nonzero accordingly.",
"R15": "a tree kept by the harness: names and lists recomputed from it, intervals of fields compared by the solver, sums of symbolic offsets, unions of symbolic coverage sets.",
"R16": "paths expanded by the harness from the same specification; a design of leaf objects with symbolic values, compared slice by slice with the policy table.",
"B01": "bit positions computed in the harness; image compared bit by bit; object equality field by field.",
"B02": "conjunction over the fields that take part; number of reported miscompares against the number of differing fields.",
"B03": "walk over both graphs comparing values and identities, then mutate one side (symbolic which) and compare again.",
"B04": "for all settings: matching by an independent glob matcher on symbolic scope; winner by (precedence, order).",
"B05": "list of (scope, precedence, order) in the harness; the winner is found by a fold over it.",
"B06": "a recursive glob matcher on symbolic glob and symbolic string.",
"B07": "overrides as lists, followed by the documented search; symbolic registration order, types and paths.",
"B08": "an arithmetic timeline of raise/drop intervals extended by drain times, ordered by the solver; every callback with its step is compared.",
"B09": "partial order generated by the add calls (transitive closure); run trace per component compared with it.",
"B10": "a list per object, edited as the operations say.",
"B11": "for each wait the earliest symbolic trigger/reset time that ends it; return times equal that.",
"B12": "the k-th smallest arrival time (case split by the solver); passing times equal it.",
"B13": "item order, capacity and blocking intervals from the times at which operations start and end.",
"B14": "key count and queue of requests replayed over the ordered events.",
"B15": "graph reachability over the symbolic connections; interface sets per port kind from the TLM tables.",
"B16": "the settings history folded into level/action/file/override per component by specificity.",
"B17": "catchers as functions on (severity, id, text, action), folded in order; counters as sums.",
"B18": "reference arbiter over the pending requests at each grant; random draws of the code are symbolic, so fairness becomes a statement about every draw.",
"B19": "the list of hook calls with start times as sums of symbolic delays; state intervals; kill at a symbolic time.",
"B20": "per-sequence lists of responses in order of sending, with symbolic routes and times.",
"B21": "whole run_test per path, with settings symbolic; starts compared with the winning setting.",
"B22": "an association list / Python list kept by the harness, with symbolic keys (equality decided by the solver), values and indices; walks compared with the list less the deleted key.",
"B23": "the rows expected from the calls made; every formatted integer appears in the text as a token standing for (symbolic value, format), and the solver decides that it is the field's value in the radix asked for.",
"B24": "the tree as parent links chosen by the solver; full names, lookups and glob searches recomputed from it (symbolic names compare character by character).",
"B25": "the arguments parsed again by an independent reading of the documentation; effects compared on every component, id, severity, phase and time.",
"B26": "a list model: the i-th items of both streams, compared by an independent equality, at the later of the two arrival times; pairs compared part by part.",
"B27": "the documented order of steps with the grant time computed from the arbitration rule, start, first get and service times; the object, sequencer, priority and constraints by identity.",
"B28": "the script of calls itself: one record per transaction with the times, stream, parent and label of its call, against the log of a recording database.",
"B29": "the policy as a small state machine kept by the check: locked or not, last value accepted, number of refused accesses.",
"B30": "identity: the very objects given to the call, at the one end it is connected to; a log of every call at every end."
}
MISSED = {k: "Missed at first; the check was strengthened and catches it" for k in (
    "r01-soft-reset-written", "r04-odd-ratio", "r05-last-beat-size", "b04-lookup-key", "b05-prec-not-kept",
    "b08-other-objection", "b11-stale-data", "b18-lock-child", "b02-last-shown")}
