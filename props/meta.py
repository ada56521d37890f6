"""Texts of properties.jsonl and MANIFEST.json (tools/gen.py writes both from here)."""

P = {}


def p(pid, title, statement, over, qtext, why, files, mech, note=None):
    P[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=["src/uvm/" + f for f in files],
                  mech=[dict(name=n, where="src/uvm/" + w) for n, w in mech], note=note)


p("R01", "Field mirror follows its access policy for every write and read",
  "For each of the 25 predefined access policies, predicting a bus write or read of any value into a field holding "
  "any value leaves the mirrored value the policy documents (as narrowed by the map's RW/RO/WO rights), and never a "
  "bit outside the field. Direct and backdoor predictions store the value itself; a prediction is refused exactly "
  "while the register is being accessed, and ignored exactly when its byte lane is disabled; write-once fields accept "
  "one write per hard reset.",
  ["inputs", "configurations", "histories"],
  "all current/written/read values of fields of 1..64 bits, all 25 policies x 3 map rights, frontdoor and monitor "
  "paths, histories of up to 4 operations",
  "the unit tests try a handful of policies with one or two literal values; 25 policies x 3 rights x 2^128 value "
  "pairs cannot be sampled",
  ["reg/uvm_reg_field.py", "reg/uvm_reg.py"],
  [("predict / policy table", "reg/uvm_reg_field.py UVMRegField.do_predict, XpredictX"),
   ("map rights", "reg/uvm_reg_field.py UVMRegField.get_access")])

p("R02", "set() and update() bring hardware to the desired value",
  "After any sequence of set() calls on a field, the desired value is what the access policy makes of them, the mirror "
  "is untouched, and an update is needed exactly when they differ (or the field is volatile). Writing the value that "
  "update sends turns a hardware field of that policy into the desired value, and the model's own prediction of that "
  "write agrees. Reset restores the masked reset value of the kind asked for and nothing else.",
  ["inputs", "configurations", "histories"],
  "all start values and all set() arguments (oversize included), histories of up to 3 (thorough 5) sets, 25 policies, "
  "field sizes up to 62 bits",
  "tests set one literal in an RW field; whether the update value inverts every policy needs all values",
  ["reg/uvm_reg_field.py"],
  [("set", "reg/uvm_reg_field.py UVMRegField.set"), ("update value", "reg/uvm_reg_field.py UVMRegField.XupdateX"),
   ("reset", "reg/uvm_reg_field.py UVMRegField.reset")])

p("R03", "A register is exactly the concatenation of its fields",
  "Reading, setting, predicting or resetting a register acts on each field with exactly that field's bits, whatever the "
  "layout and creation order, and operations on one field never change another field's bits. A prediction with byte "
  "enables touches exactly the fields whose first byte lane is enabled. Overlapping fields are reported and disjoint "
  "ones are not.",
  ["inputs", "configurations"],
  "all register values; every layout of 2 fields in 6 bits (thorough: 2 in 12 and 3 in 8) in every creation order, plus "
  "chosen 64-bit layouts; all byte enables",
  "tests use one or two fixed layouts with literal values",
  ["reg/uvm_reg.py", "reg/uvm_reg_field.py"],
  [("compose/extract", "reg/uvm_reg.py UVMReg.get, set, get_mirrored_value, do_predict"),
   ("layout check", "reg/uvm_reg.py UVMReg.add_field")])

p("R04", "Every register is reachable at exactly its documented bus addresses",
  "The bus addresses of a register follow from map base, submap offsets, register offset, bus width, endianness and "
  "addressing mode, for any nesting. Looking up a bus address finds the register that owns it and no other, two "
  "registers sharing an address are reported unless one is read-only and the other write-only, and a moved register is "
  "found at its new address only.",
  ["inputs", "configurations", "histories"],
  "all 32-bit base addresses and offsets, widths 1/2/4/8 bytes, registers of 8..64 bits, 4 endiannesses, both addressing "
  "modes, up to 3 map levels, 2 (thorough 3) registers, up to 2 (thorough 4) moves",
  "tests use a few literal offsets in a flat map; address arithmetic over levels and widths needs all offsets",
  ["reg/uvm_reg_map.py", "reg/uvm_reg.py"],
  [("address computation", "reg/uvm_reg_map.py UVMRegMap.get_physical_addresses"),
   ("address table", "reg/uvm_reg_map.py UVMRegMap.Xinit_address_mapX, m_set_reg_offset, get_reg_by_offset")])

p("R05", "A register access is exactly the bus beats that carry it",
  "A write, update, read or mirror of a register through a map puts exactly its beats on the bus: one per bus address, "
  "with the address, direction, data slice, size and byte lanes of that beat, stopping after the first failing beat. The "
  "status returned is OK exactly when every beat was, the value read is the beats put back together, and the mirror then "
  "equals the hardware. Beats of concurrent accesses to one register never interleave, every access completes whatever "
  "failed before, adapters that return separate responses are served, and a transfer-order policy reorders beats without "
  "changing what is transferred.",
  ["inputs", "configurations", "schedules", "faults"],
  "all values and 16-bit addresses, registers of 8..64 bits over 1/4/8-byte buses, both endiannesses and addressing modes, "
  "every failing beat, histories of 3 accesses, 2 (thorough 3) concurrent processes with arbitrary start times and latency",
  "tests drive one register with literal data and no failures; concurrency is not exercised",
  ["reg/uvm_reg.py", "reg/uvm_reg_map.py", "reg/uvm_reg_adapter.py"],
  [("bus beats", "reg/uvm_reg_map.py UVMRegMap.do_bus_write, do_bus_read, perform_accesses"),
   ("access sequence", "reg/uvm_reg.py UVMReg.do_write, do_read, XatomicX")])

p("R06", "mirror(check) reports exactly the mismatches it should",
  "A mirror with checking, or a checked read, reports an error exactly when a readable, comparing, non-volatile field read "
  "back differs from its mirrored value; other fields never cause a report. A failed bus read is never compared. Afterwards "
  "the mirror holds what was read, and the register is free again whatever happened, including an unknown map.",
  ["inputs", "configurations", "faults"],
  "all mirrored and hardware values of 2-field registers, all compare/volatile settings, all policies, failing reads",
  "tests check one matching and one mismatching literal",
  ["reg/uvm_reg.py"],
  [("comparison", "reg/uvm_reg.py UVMReg.do_check"), ("mirror", "reg/uvm_reg.py UVMReg.mirror")])

p("R07", "Memory accesses touch exactly the locations asked for",
  "A memory write or read of location i acts on exactly the bus addresses of location i; a burst acts on exactly its "
  "locations in order; data written is read back. Out-of-range locations, bursts past the end, writes to read-only and "
  "reads of write-only memories are refused without touching the bus. Address ranges of memories and registers that "
  "overlap are reported and those that do not are not.",
  ["inputs", "configurations"],
  "all offsets and data, memories of several sizes and widths, bursts of up to 3 locations, all access rights",
  "tests access a few literal offsets of one memory",
  ["reg/uvm_mem.py", "reg/uvm_reg_map.py"],
  [("access", "reg/uvm_mem.py UVMMem.do_write, do_read, check_access"),
   ("addresses", "reg/uvm_reg_map.py UVMRegMap.get_mem_map_info, Xinit_address_mapX")])

p("R08", "Register hooks and callbacks see and shape every access",
  "Around every register and field access the pre and post hooks and the registered callbacks run in the documented order, "
  "each once: pre hooks may replace the value or veto the access, post hooks see the final status and value and may replace "
  "the value read. Disabled or removed callbacks do not run. User backdoors and frontdoors are used in place of the bus "
  "exactly for the accesses they are installed for, and the mirror follows.",
  ["inputs", "configurations", "histories"],
  "all values and replaced values, every choice of vetoing hook, enabled/disabled callbacks, reads and writes",
  "tests install a single callback and check it ran",
  ["reg/uvm_reg.py", "reg/uvm_reg_cbs.py", "reg/uvm_reg_field.py", "base/uvm_callback.py"],
  [("hook order", "reg/uvm_reg.py UVMReg.do_write, do_read"),
   ("backdoor", "reg/uvm_reg.py UVMReg.backdoor_read, backdoor_write")])

p("R09", "Memory allocation never hands out overlapping or outside space",
  "reserve_region grants a region exactly when it lies inside the managed memory and is clear of every region already "
  "reserved, and the region covers exactly the locations asked for. A static virtual register array is implemented exactly "
  "when it fits and overlaps nothing. Virtual fields that overlap are reported and disjoint ones are not.",
  ["inputs", "histories"],
  "all starts and sizes of up to 3 (thorough 4) reservations in 8- (thorough 16-) bit spaces, 2 (3) virtual register arrays "
  "of any size, offset and increment, all layouts of 2 (3) virtual fields",
  "interval arithmetic at the boundaries needs all starts and sizes; tests reserve one or two literal regions",
  ["reg/uvm_mem_mam.py", "reg/uvm_vreg.py", "reg/uvm_vreg_field.py"],
  [("reservation", "reg/uvm_mem_mam.py UVMMemMAM.reserve_region"), ("virtual registers", "reg/uvm_vreg.py UVMVReg.implement")])

p("R10", "Block-wide operations act on every register below the block, and no other",
  "update, mirror, reset and needs_update of a register block act on exactly the registers of its subtree: update writes "
  "each register that needs it once and leaves nothing to update, mirror reads each register once (and reports exactly the "
  "mismatches when checking), reset resets each, and the status is a failure exactly when an access failed. Registers and "
  "sub-blocks are found from exactly the blocks that contain them, by name, by offset and in listings.",
  ["inputs", "configurations", "faults"],
  "all register values; every tree of 3 (thorough 4) blocks, every target block, every failing register",
  "tests use flat one-block models with literal values",
  ["reg/uvm_reg_block.py"],
  [("update/mirror/reset", "reg/uvm_reg_block.py UVMRegBlock.update, mirror, reset, needs_update"),
   ("lookup", "reg/uvm_reg_block.py UVMRegBlock.get_registers, get_blocks, get_reg_by_name")])

p("R11", "A FIFO register mirrors a FIFO",
  "After any sequence of set, update, write, read and predict the abstract FIFO holds what a queue of its capacity would "
  "hold. Writes to a full FIFO, writes while set values are pending and reads of an empty FIFO are refused without touching "
  "the bus; update writes exactly the pending values in order; a value read that differs from the front entry is reported "
  "exactly when comparison is on.",
  ["inputs", "histories"],
  "all values; all histories of 3 mixed or 5 write/read or set/update/read operations, capacity 2 and 3 (thorough 5 mixed)",
  "the one example fills and drains one FIFO of literal values",
  ["reg/uvm_reg_fifo.py"],
  [("queue", "reg/uvm_reg_fifo.py UVMRegFIFO.set, update, do_predict, pre_write, pre_read")])

p("R12", "Indirect registers are reached through their index and data registers",
  "An access to an indirectly addressed register writes its index to the index register and then accesses the data "
  "register, nothing else; an access to the data register acts on the register the index selects. Mirrors of all involved "
  "registers follow the hardware, an index out of range is reported, a failing access is reported and leaves every register "
  "usable.",
  ["inputs", "histories", "faults"],
  "all values, 2-3 indirect registers, all sequences of 1-2 (thorough 3) accesses, every failing beat",
  "only a construction example exists; no test accesses one",
  ["reg/uvm_reg_indirect.py", "reg/uvm_reg_item.py", "base/uvm_object.py"],
  [("frontdoor", "reg/uvm_reg_indirect.py uvm_reg_indirect_ftdr_seq.body"),
   ("prediction", "reg/uvm_reg_indirect.py UVMRegIndirectData.do_predict")])

p("R13", "The explicit predictor mirrors exactly the observed register accesses",
  "For any stream of observed bus transactions, a register is predicted exactly when all beats of an access to it have been "
  "seen, with the value they carry and under its policy, and one register item is published for it. Transactions to other "
  "addresses change nothing, read-only and write-only registers sharing an address are told apart by direction, colliding "
  "beats and accesses left incomplete are reported, and so are read values that differ when check-on-read is on.",
  ["inputs", "configurations", "histories"],
  "all addresses in 10 bits, all data, streams of 2-3 (thorough 4) transactions, two-beat and one-beat registers, direct and "
  "nested maps, both endiannesses",
  "tests feed single literal transactions of one-beat registers",
  ["reg/uvm_reg_predictor.py", "reg/uvm_reg_map.py"],
  [("prediction", "reg/uvm_reg_predictor.py UVMRegPredictor.write")])

p("R14", "Built-in register tests pass conforming hardware and catch broken one",
  "The hardware-reset, bit-bash, register-access, memory-access and memory-walk sequences complete without an error on hardware that behaves "
  "as modelled, for every access policy and reset value. They visit every register (of sub-blocks too) and bit they should, "
  "and report hardware with a wrong reset value, a stuck read-write bit, disagreeing front- and backdoor, a wrong memory "
  "location, or a failing access.",
  ["inputs", "configurations", "faults"],
  "all reset values, all differing hardware reset values, every stuck bit position and value, 8-bit registers with up to 4 "
  "fields covering 13 policies, memories of 3 locations with any corrupted read, 8- and 40-bit memories with any one path that corrupts a location",
  "tests run them on one conforming design",
  ["reg/sequences/uvm_reg_hw_reset_seq.py", "reg/sequences/uvm_reg_bit_bash_seq.py",
   "reg/sequences/uvm_reg_access_seq.py", "reg/sequences/uvm_mem_access_seq.py", "reg/sequences/uvm_mem_walk_seq.py"],
  [("reset", "reg/sequences/uvm_reg_hw_reset_seq.py UVMRegHWResetSeq.do_block"),
   ("bash", "reg/sequences/uvm_reg_bit_bash_seq.py UVMRegSingleBitBashSeq.bash_kth_bit"),
   ("walk", "reg/sequences/uvm_mem_walk_seq.py UVMMemSingleWalkSeq.body")])

p("B01", "What is packed is unpacked unchanged, in the documented layout",
  "Packing any sequence of fields, strings and objects produces the documented bit layout (each field its low size bits, "
  "most significant first when big-endian, appended in order), and unpacking returns every value as packed, whatever the "
  "bits are, leaving no bit over. Bit, byte and integer transports carry the same image, also for partial sizes, and an "
  "object with nested or absent sub-objects comes back equal.",
  ["inputs", "configurations", "histories"],
  "all values of 1-3 fields of 1..64 bits, strings of up to 3 characters of 1-3 bytes, byte and word arrays of partial size, "
  "objects with a nested object or none, both endiannesses",
  "the unit tests pack a few literals little-endian",
  ["base/uvm_packer.py", "base/uvm_object.py"],
  [("pack", "base/uvm_packer.py UVMPacker.pack_field_int"), ("unpack", "base/uvm_packer.py UVMPacker.unpack_field_int"),
   ("object", "base/uvm_object.py UVMObject.pack")])

p("B02", "Objects compare equal exactly when every compared field is equal",
  "compare() of two objects returns true exactly when no field that takes part differs (UVM_NOCOMPARE fields do not, "
  "reference policy compares identity, do_compare hooks of the object and of sub-objects count), for int, string, container "
  "and object fields, including None and objects of other types. Each differing field up to show_max is reported, and a "
  "comparer used again is not affected by an earlier result. compare_field looks at exactly the given number of bits.",
  ["inputs", "configurations", "histories"],
  "all field values of objects with 3-6 fields, nested and shared sub-objects, every mix of present and absent sub-object, "
  "compare_field of 10 sizes up to 100 bits and all values",
  "the unit tests compare objects with literal values in one field",
  ["base/uvm_comparer.py", "base/uvm_object.py", "macros/uvm_object_defines.py"],
  [("fields", "base/uvm_comparer.py UVMComparer.compare_field"), ("objects", "base/uvm_comparer.py UVMComparer.compare_object"),
   ("compare", "base/uvm_object.py UVMObject.compare")])

p("B03", "A copy equals its source and shares nothing that later changes leak through",
  "copy() and clone() make every copied field equal to the source, leave UVM_NOCOPY fields alone, keep the sharing and the "
  "cycles of the object graph, and duplicate sub-objects and containers unless the field is a reference. Changing the copy "
  "afterwards never changes the source or the reverse, and a second copy works as the first.",
  ["inputs", "configurations", "histories"],
  "6 object-graph shapes (tree, shared child, cycle, absent child), all field values of 6 bits, base and derived types",
  "tests copy an object with one level and literal values",
  ["base/uvm_object.py", "macros/uvm_object_defines.py"],
  [("copy", "base/uvm_object.py UVMObject.copy"), ("clone", "base/uvm_object.py UVMObject.clone")])

p("B04", "A configuration lookup returns the last setting of highest precedence",
  "UVMConfigDb.get for a scope and field returns the value of the applicable setting made highest in the hierarchy during "
  "build, or else the one set last; it fails, leaving its output alone, exactly when no setting's scope matches, and exists() "
  "agrees. Setting again moves that setting to the front. Automatic configuration of component fields and UVMAgent.is_active "
  "use the same value, read-only fields are left alone, and a typed get sees only values of its type.",
  ["inputs", "configurations", "histories"],
  "2 (thorough 4) settings from 3 contexts with up to 6 scope globs each, inside and outside build, all values, every scope of "
  "up to 3 (thorough 5) characters below 3 contexts",
  "tests set one or two values and read them back; the precedence rules are about all interleavings of settings",
  ["base/uvm_config_db.py", "base/uvm_resource.py", "base/uvm_component.py", "comps/uvm_agent.py"],
  [("set", "base/uvm_config_db.py UVMConfigDb.set"), ("get", "base/uvm_config_db.py UVMConfigDb.get"),
   ("apply", "base/uvm_component.py UVMComponent.apply_config_settings")])

p("B05", "Resource lookup honours scope, precedence and search order",
  "A lookup by name finds, among the resources of that name whose scope matches, one of the highest precedence and of these "
  "the first in search order, which set, set_override and priority changes define; otherwise it fails. Writing by name changes "
  "exactly the resource found, read-only resources refuse writes with an error, wait_modified returns when a value changes, and "
  "lookup_scope and sort_by_precedence return every match, highest precedence first.",
  ["inputs", "configurations", "histories"],
  "2-3 resources (5 scope globs, 3 precedences, 4 ways to set, all values), every scope of up to 3 characters, 3 write or "
  "access-mode operations",
  "tests look up two resources in fixed scopes",
  ["base/uvm_resource.py", "base/uvm_resource_db.py"],
  [("lookup", "base/uvm_resource.py UVMResourcePool.get_by_name"), ("sort", "base/uvm_resource.py UVMResourcePool.sort_by_precedence"),
   ("priority", "base/uvm_resource.py UVMResourcePool.set_priority_queue")])

p("B06", "Glob expressions match exactly the whole names they describe",
  "A glob matches a name exactly when the whole name can be read as the glob with * standing for any characters, + for one or "
  "more and ? for exactly one, every other character for itself; an empty scope matches everything; an expression between "
  "slashes is a regular expression. uvm_is_match and resource scopes agree.",
  ["inputs"],
  "all globs of up to 3 (thorough 4) characters over 7-8 characters, all names of up to 4 (thorough 5) characters over 11, 11 "
  "hierarchical globs on names of up to 9, 5 regular expressions",
  "tests match six literal pairs; unanchored matching passes them all",
  ["base/sv.py", "base/uvm_globals.py", "base/uvm_resource.py"],
  [("translate", "base/sv.py uvm_glob_to_re"), ("match", "base/sv.py uvm_re_match")])

p("B07", "The factory makes the type its overrides lead to, by type or by name alike",
  "Creating an object or component by type, by name or through its registry yields the type reached by following, from the "
  "requested type, the first registered instance override whose path matches the full instance name, else the type override, "
  "until none applies. A later type override replaces an earlier one unless told not to, circular overrides are reported and "
  "end, names nobody registered are reported (unless an instance override by a pattern of names covers them, or they are registered later), and debug_create names the same type and changes nothing.",
  ["inputs", "configurations", "histories"],
  "2-3 overrides (by type, by name, by registry, per instance with 4 path globs, replacing or not) of 3 types, all instance "
  "names of up to 2 characters, objects and components",
  "tests apply one or two fixed overrides",
  ["base/uvm_factory.py", "base/uvm_registry.py"],
  [("lookup", "base/uvm_factory.py UVMDefaultFactory.find_override_by_type"),
   ("lookup by name", "base/uvm_factory.py UVMDefaultFactory.find_override_by_name"),
   ("override", "base/uvm_factory.py UVMDefaultFactory.set_type_override_by_type")])

p("B08", "A phase ends exactly when every objection is dropped and drained",
  "An object's objection count is what it raised less what it dropped, its total covers everything raised below it, and dropping "
  "more than was raised is fatal. all_dropped of an object is called, and its parent told, exactly when everything below it has "
  "been dropped for its whole drain time, however raises and drops interleave; raising again before that, also from all_dropped, "
  "keeps the parents objecting. clear ends all drains and releases the waiters; waiting, tracing and displaying tell the same.",
  ["schedules", "histories", "configurations"],
  "4 (thorough 5) raises or drops by 2-3 of 4 objects, counts 1-3, drain times 0-3, any delays, 1 clear; a raise at the very "
  "step at which a positive drain time ends may go either way and is left out",
  "tests raise and drop once per phase; drain cancellation depends on when a raise comes",
  ["base/uvm_objection.py"],
  [("raise", "base/uvm_objection.py UVMObjection.m_raise"), ("drop", "base/uvm_objection.py UVMObjection.m_drop"),
   ("drain", "base/uvm_objection.py UVMObjection.m_forked_drain"), ("clear", "base/uvm_objection.py UVMObjection.clear")])

p("B09", "Phases run in schedule order, each component once, as long as anyone objects",
  "In every schedule built with add, phases are ordered as asked for and nothing else: is_before, is_after, find and the adjacent "
  "nodes agree, and executing it runs each phase once, when all phases before it are over. In a test every component runs every "
  "phase once, build and final top down, the others bottom up, whatever phase methods do; runtime phases follow each other "
  "alongside run; a task phase lasts until nobody objects, its processes end with it, and state waiters are woken.",
  ["configurations", "schedules", "inputs"],
  "all schedules of 3 (thorough 4) phases added in 5 ways, tests of 4 components with up to 3 phases held for 0-3 by 1-2 "
  "components, one extension from phase_ready_to_end; jumps and domain synchronisation are not in the port",
  "tests check the standard schedule only, without parallel branches",
  ["base/uvm_phase.py", "base/uvm_task_phase.py", "base/uvm_topdown_phase.py", "base/uvm_bottomup_phase.py",
   "base/uvm_domain.py", "base/uvm_runtime_phases.py", "base/uvm_common_phases.py", "base/uvm_root.py"],
  [("schedule", "base/uvm_phase.py UVMPhase.add"), ("execute", "base/uvm_phase.py UVMPhase.execute_phase"),
   ("traverse", "base/uvm_task_phase.py UVMTaskPhase.m_traverse"), ("run", "base/uvm_root.py UVMRoot.run_test")])

p("B10", "Every enabled callback of an object and of its type is called once, in order",
  "Running callbacks of a class on an object calls exactly the enabled callbacks of that class added to the object or type-wide, "
  "each once, in the order appending and prepending gave them, whichever was added first and however many objects have callbacks; "
  "exit-on stops at the first that returns the value and returns it; iterating forwards and backwards visits the same ones; "
  "coroutine callbacks are awaited in turn; adding one again changes nothing but a warning.",
  ["histories", "configurations"],
  "3 (thorough 4) operations (append, prepend, enable, disable) on 3 callbacks of 3 classes, 2 objects and type-wide; up to 4 "
  "objects",
  "tests add one or two callbacks to one object",
  ["base/uvm_callback.py", "macros/uvm_callback_defines.py"],
  [("add", "base/uvm_callback.py UVMCallbacks.add"), ("type-wide", "base/uvm_callback.py UVMTypedCallbacks.m_add_tw_cbs"),
   ("iterate", "base/uvm_callback.py UVMCallbacks.get_next"), ("call", "macros/uvm_callback_defines.py uvm_do_obj_callbacks")])

p("B11", "Event waits return at their trigger, on, off or reset, and only then",
  "For any schedule of waits, triggers and resets of a UVMEvent, each wait returns in the step of the trigger or reset it waits "
  "for and in no other: wait_trigger is woken by the next trigger, never by one of the past; wait_ptrigger also returns when the "
  "event was triggered in the same time step; wait_on/wait_off return at once when the event is on/off already and else at the "
  "change; all waiters of one occasion wake up; reset with wakeup wakes those waiting for a trigger. State, number of waiters, "
  "trigger time and data follow the last trigger or reset. Every trigger shows itself to all callbacks in order, and has no effect "
  "at all if any pre_trigger returns true.",
  ["schedules", "histories"],
  "2 waiters and a driver with 2 actions or 1 and 3 (thorough 2 and 3), symbolic times; 3 callbacks; what becomes of processes "
  "waiting for a trigger across a reset without wakeup is not specified",
  "tests trigger an event once with one waiter", ["base/uvm_event.py"],
  [("trigger", "base/uvm_event.py UVMEvent.trigger"), ("wait_on", "base/uvm_event.py UVMEventBase.wait_on"),
   ("wait_trigger", "base/uvm_event.py UVMEventBase.wait_trigger"), ("reset", "base/uvm_event.py UVMEventBase.reset")])
p("B12", "A barrier holds processes back until the threshold is reached, then lets all go",
  "For any arrival times, a process calling wait_for on a UVMBarrier passes exactly when as many processes as the threshold says "
  "have arrived since the last opening, in the step of the last arrival, and all of them pass; with auto-reset off the barrier "
  "stays open until it is reset. Lowering the threshold to the number waiting or below, and reset with wakeup, lets the waiting "
  "ones go; cancel takes a killed one off the count.",
  ["schedules", "configurations"],
  "4 processes (2 arriving again at once), threshold 1..5, auto-reset on/off; 3 (thorough 4) processes and 2 (thorough 3) "
  "set_threshold/reset/set_auto_reset calls, all times symbolic; processes waiting across a reset without wakeup are not specified",
  "no test uses a barrier", ["base/uvm_barrier.py", "base/uvm_event.py"],
  [("wait_for", "base/uvm_barrier.py UVMBarrier.wait_for"), ("reset", "base/uvm_barrier.py UVMBarrier.reset"),
   ("set_threshold", "base/uvm_barrier.py UVMBarrier.set_threshold"), ("cancel", "base/uvm_barrier.py UVMBarrier.cancel")])

p("B13", "Mailboxes and TLM FIFOs deliver each item once, in order, without idle blocking",
  "For any schedule of put/get/peek and their try forms by several processes, a UVMMailbox or UVMTLMFIFO (also through its "
  "exports, an analysis export or a request/response channel) returns the items in the order they were put, each to one get, never "
  "holds more than its size, blocks a put only while full and a get or peek only while empty, and serves them in the step they can "
  "go on; try forms succeed exactly when possible; used/is_empty/is_full/can_* tell the current state; put_ap and get_ap "
  "publish each item put and taken once, in order; flush empties it.",
  ["schedules", "histories"],
  "3 puts and 2 or 3 gets/peeks in 3 to 5 processes, symbolic times and size 0..2 (thorough 5 and 5, size 0..3)",
  "tests put and get one item at a time", ["base/uvm_mailbox.py", "tlm1/uvm_tlm_fifos.py", "tlm1/uvm_tlm_fifo_base.py", "tlm1/uvm_tlm_req_rsp.py"],
  [("mailbox", "base/uvm_mailbox.py UVMMailbox.put"), ("fifo", "tlm1/uvm_tlm_fifos.py UVMTLMFIFO.get"),
   ("try", "tlm1/uvm_tlm_fifos.py UVMTLMFIFO.try_get"), ("flush", "tlm1/uvm_tlm_fifos.py UVMTLMFIFO.flush"),
   ("channel", "tlm1/uvm_tlm_req_rsp.py UVMTLMReqRspChannel.connect_phase")])
p("B14", "A semaphore gives out no more keys than it has, first come first served",
  "For any schedule, sv.semaphore.get(n) returns as soon as n keys are free and no earlier request is waiting, in the step they "
  "become free, and blocks otherwise; try_get never blocks and succeeds exactly when enough keys are free; keys are neither lost nor "
  "made; a request for more keys than there are is refused.",
  ["schedules"],
  "3 (thorough 4) processes taking 1..3 keys at symbolic times and putting them back a symbolic time later; 1..3 keys",
  "one example takes a single key", ["base/sv.py"],
  [("get", "base/sv.py semaphore.get"), ("put", "base/sv.py semaphore.put"), ("try_get", "base/sv.py semaphore.try_get")])

p("B15", "Connected ports reach exactly the implementations they are connected to",
  "Connecting a TLM1 port to an implementation that lacks one of the port's methods is refused, and any other connection is made: a "
  "call through the port runs the implementation's method once, with the same arguments and result. Over any graph of connections "
  "a port reaches each implementation behind it once, an analysis write calls each of them once, and too few or too many "
  "implementations (min_size, max_size) are reported, and nothing else. Connections in the wrong direction are refused.",
  ["configurations"],
  "all 21 x 21 port and implementation classes; every combination of 6 connections among a port, two ports between, exports and 3 "
  "implementations, minimum 0..3, maximum -1..2",
  "tests connect a handful of matching pairs",
  ["base/uvm_port_base.py", "macros/uvm_tlm_defines.py", "tlm1/uvm_ports.py", "tlm1/uvm_imps.py", "tlm1/uvm_analysis_port.py"],
  [("connect", "base/uvm_port_base.py UVMPortBase.connect"), ("resolve", "base/uvm_port_base.py UVMPortBase.resolve_bindings"),
   ("interface masks", "macros/uvm_tlm_defines.py UVM_TLM_BLOCKING_PUT_MASK"), ("fan-out", "tlm1/uvm_analysis_port.py UVMAnalysisPort.write")])
p("B16", "Reports follow the verbosity, actions, files and overrides of their component",
  "For any history of settings, a report is issued exactly when its verbosity is within the level in effect for its severity and id "
  "in the component it comes from, by method, macro or generic call alike. It is issued with the severity the overrides give it, "
  "displayed, logged to the most specific file, counted by severity and id and ends the simulation exactly as the action in effect "
  "says (severity+id before id before severity), and names severity, verbosity if wanted, reporter, id and text. Hierarchical "
  "settings apply to the whole subtree and to nothing else.",
  ["inputs", "histories", "configurations"],
  "2 (thorough 3) settings of 12 kinds on a component or subtree, symbolic levels, actions and verbosities, all severities; whether a "
  "general override applies when there is one by id for other severities only is not specified",
  "tests issue reports at default settings",
  ["base/uvm_report_object.py", "base/uvm_report_handler.py", "base/uvm_report_server.py", "base/uvm_component.py",
   "macros/uvm_message_defines.py", "base/uvm_globals.py"],
  [("enabled", "base/uvm_report_object.py UVMReportObject.uvm_report_enabled"),
   ("settings", "base/uvm_report_handler.py UVMReportHandler.get_action"), ("override", "base/uvm_report_handler.py UVMReportHandler.process_report_message"),
   ("issue", "base/uvm_report_server.py UVMReportServer.execute_report_message"), ("macros", "macros/uvm_message_defines.py uvm_info")])
p("B17", "Report catchers and the quit count decide what becomes of a report",
  "Catchers registered for all reports or for a component see each report once, in the order of registration, as the ones before "
  "left it, unless turned off; a caught report is neither shown nor counted and reaches no later catcher, any other is issued with "
  "the severity, id, text and action they left it with (the action follows a changed severity unless set). What catchers issue "
  "themselves is not caught again. The simulation ends exactly when as many counted reports as the maximum have been issued; "
  "counters, lists of ids and the summary tell what was issued, caught and demoted.",
  ["histories", "configurations"],
  "1 to 3 catchers of up to 19 kinds, 2 scopes, debug flags, 2 reports; symbolic maximum and start of the quit count, 3 (thorough 5) "
  "reports; 2 (thorough 3) operations on the counters",
  "one test has a single catcher", ["base/uvm_report_catcher.py", "base/uvm_report_server.py"],
  [("catching", "base/uvm_report_catcher.py UVMReportCatcher.process_all_report_catchers"),
   ("quit count", "base/uvm_report_server.py UVMReportServer.execute_report_message"),
   ("summary", "base/uvm_report_server.py UVMReportServer.get_summary_string")])

p("B18", "A sequencer hands each item to the driver once, as arbitration says",
  "For any times at which sequences ask and the driver asks and serves, by get_next_item/item_done, try_next_item, get or peek: every "
  "item sent reaches the driver exactly once, in the step there is an item and the driver asks, chosen among the waiting requests as "
  "the arbitration mode says (FIFO, by strict priority, in proportion to priority, random, by the user), never from a sequence that is "
  "not relevant or is locked out; finish_item returns exactly when that item is done, with pre_do, mid_do and post_do called around it; "
  "try_next_item gives nothing exactly when nothing can be granted; misuse of the interface is reported.",
  ["schedules", "inputs"],
  "2 sequences of up to 2 items or 3 of 1 item (thorough 3 with up to 2 items), all gaps and service times symbolic and not coinciding, priorities "
  "1..1000 symbolic, random numbers symbolic; one lock; relevance changes once per sequence",
  "tests send items at fixed times in FIFO order", ["seq/uvm_sequencer.py", "seq/uvm_sequencer_base.py", "seq/uvm_sequencer_param_base.py",
   "seq/uvm_sequence_base.py", "macros/uvm_tlm_defines.py"],
  [("grant", "seq/uvm_sequencer_base.py UVMSequencerBase.m_choose_next_request"), ("hand-over", "seq/uvm_sequencer.py UVMSequencer.get_next_item"),
   ("done", "seq/uvm_sequencer.py UVMSequencer.item_done"), ("try", "seq/uvm_sequencer.py UVMSequencer.try_next_item"),
   ("item", "seq/uvm_sequence_base.py UVMSequenceBase.finish_item"), ("relevance", "seq/uvm_sequencer_base.py UVMSequencerBase.m_wait_for_available_sequence"),
   ("locks", "seq/uvm_sequencer_base.py UVMSequencerBase.grant_queued_locks")])
p("B19", "A sequence runs its hooks in order, and can be waited for, nested and killed",
  "Started with or without a sequencer or parent, a sequence calls pre_start, pre_body, the parent's pre_do and mid_do, body, the "
  "parent's post_do, post_body and post_start, each once, each when the one before returns, in the state that belongs to it; "
  "wait_for_sequence_state returns exactly when a state of the mask is reached; start returns with the last hook; it can be started "
  "again then and not before. Children inherit priority and sequencer unless given, and name their parents. A killed sequence, its "
  "children, or all sequences of a stopped sequencer do nothing any more and no item of theirs is handed over, while others go on. "
  "An automatic phase objection is raised at the start and dropped exactly once, at the end or when killed.",
  ["schedules", "histories"],
  "5 hooks of symbolic duration, all 511 state masks, 2 (thorough 3) levels of nesting over 3 sequencers, kill at any symbolic time",
  "tests run sequences to their end", ["seq/uvm_sequence_base.py", "seq/uvm_sequence_item.py", "seq/uvm_sequencer_base.py", "seq/uvm_sequencer.py"],
  [("start", "seq/uvm_sequence_base.py UVMSequenceBase.start"), ("hooks", "seq/uvm_sequence_base.py UVMSequenceBase.start_process"),
   ("states", "seq/uvm_sequence_base.py UVMSequenceBase.wait_for_sequence_state"), ("kill", "seq/uvm_sequence_base.py UVMSequenceBase.kill"),
   ("stop", "seq/uvm_sequencer.py UVMSequencer.stop_sequences"), ("context", "seq/uvm_sequence_item.py UVMSequenceItem.set_item_context")])
p("B20", "Each response of the driver reaches the sequence that sent the item",
  "In whatever order and way (item_done, put, put_response, rsp_port) and at whatever times the driver sends responses, each reaches "
  "the sequence that sent its item and no other, once; get_response gives the oldest response, or the oldest with the transaction id "
  "asked for, in the step it is there, and leaves the others; a response handler gets them as they come; a response beyond "
  "the depth of the queue is dropped with an error (unless turned off), one for a sequence that has ended is dropped quietly. "
  "wait_for_item_done returns when the item asked for is done.",
  ["schedules", "inputs"],
  "2 sequences of 1 and 2 items, every order and way of responding, symbolic times; 3 (thorough 4) responses with symbolic ids and depth, 2 (3) taken",
  "tests take one response at a time", ["seq/uvm_sequence_base.py", "seq/uvm_sequence.py", "seq/uvm_sequencer_param_base.py", "seq/uvm_sequencer.py"],
  [("routing", "seq/uvm_sequencer_param_base.py UVMSequencerParamBase.put_response"),
   ("queue", "seq/uvm_sequence_base.py UVMSequenceBase.put_base_response"), ("taking", "seq/uvm_sequence_base.py UVMSequenceBase.get_base_response"),
   ("done", "seq/uvm_sequencer_base.py UVMSequencerBase.wait_for_item_done")])
p("B21", "The default sequence set for a phase of a sequencer runs in that phase",
  "A default_sequence set in the configuration for a phase of a sequencer, by type (subject to factory overrides) or by instance, is "
  "started once when that phase starts, with that phase as its starting phase, on exactly the sequencers the setting matches; the last "
  "setting wins and None disables it. The phase waits for it while it objects, and kills it at its end otherwise.",
  ["configurations", "schedules"],
  "2 sequencers, 3 of the 12 phases, every combination of two settings of 6 kinds, symbolic durations of the sequence and of the test",
  "no test uses default sequences", ["seq/uvm_sequencer_base.py", "base/uvm_task_phase.py"],
  [("start", "seq/uvm_sequencer_base.py UVMSequencerBase.start_phase_sequence"), ("end", "seq/uvm_sequencer_base.py UVMSequencerBase.stop_phase_sequence"),
   ("phase", "base/uvm_task_phase.py UVMTaskPhase.m_traverse")])

p("B22", "Pools and queues hold what was put in, in order, and copies are independent",
  "A UVMPool is an associative array in order of insertion: add and []= store or replace the item of a key, get and [] return the item stored last, delete removes one key or all, exists, `in`, num and len tell what is there, a pool with a default type makes and keeps an item on get of a missing key; a walk with first/next (or last/prev) visits every key once in order, also when a key already visited, the current one or one to come is deleted, a key is added, or the pool is looked up, copied or printed on the way; a copy of a pool or queue holds the same items and changing one leaves the other alone. Event, barrier and object string pools give one item per key, named after the key. A UVMQueue holds items in order under push, pop, insert, delete, []=, get, slices and find; an index out of range warns and changes nothing.",
  ["inputs", "histories"],
  "pools of up to 5 keys, 3-4 operations; queues of up to 2 items, 2-3 of 13 operations",
  "tests use fixed keys and walk pools that do not change",
  ["base/uvm_pool.py", "base/uvm_queue.py"],
  [("UVMPool", "base/uvm_pool.py UVMPool"), ("UVMObjectStringPool", "base/uvm_pool.py UVMObjectStringPool"), ("UVMQueue", "base/uvm_queue.py UVMQueue")])
p("B23", "Printing an object shows every field once with its value, at its level",
  "sprint with the table, tree or line printer shows the object and then each field printed by do_print or registered with the field macros (not UVM_NOPRINT or None), once and in order, with its name, type, size and value: an integer of any value in its radix (the printer's default when none is given) with the radix prefix unless show_radix is off, cut to its size, a negative decimal with its sign; strings, reals, times, references (type and identity without the contents), null objects and array headers likewise. The fields of a nested object and the elements of an array are indented one level below it, and what follows returns to the level before; the depth knob cuts nested contents; an object that contains itself is printed once; derived classes show inherited fields first; a component shows its children with printing enabled. Printing again gives the same text.",
  ["inputs", "configurations"],
  "objects of up to 3 fields of 11 kinds nested 2 deep, widths up to 65",
  "tests look at few objects, one radix and small values",
  ["base/uvm_printer.py", "base/uvm_misc.py", "base/uvm_scope_stack.py", "base/uvm_object.py", "macros/uvm_object_defines.py"],
  [("UVMPrinter", "base/uvm_printer.py UVMPrinter"), ("radix", "base/uvm_misc.py uvm_integral_to_string"), ("UVMObject.sprint", "base/uvm_object.py UVMObject.sprint"), ("field macros", "macros/uvm_object_defines.py uvm_field_utils_start")])

p("B24", "Components form one tree with unique full names, and every walk sees each once",
  "However components are created, each has the parent it was given (the root when none), is among its parent's children once, in order of creation, "
  "and its full name is the dotted path of names from the root; a second child of the same name is a fatal error and changes nothing. "
  "lookup finds exactly the component at a relative path, or below the root for a path that starts with a dot, and warns otherwise; find and find_all "
  "give exactly the components whose full name matches the glob, in depth-first order, below the component asked; get_child, has_child, get_num_children, "
  "get_children, first/next and get_depth agree with the tree. resolve_bindings, pre_abort, flush and set_domain (with hier) visit each component "
  "below once. set_name of a component and cloning are errors.",
  ["inputs", "configurations"],
  "every tree of up to 4 (thorough 5) components, names of 1 symbolic character or from small sets, patterns of 2 (3) characters",
  "tests build one fixed tree", ["base/uvm_component.py", "base/uvm_root.py"],
  [("tree", "base/uvm_component.py UVMComponent.__init__"), ("lookup", "base/uvm_component.py UVMComponent.lookup"),
   ("find", "base/uvm_root.py UVMRoot.find_all"), ("domains", "base/uvm_component.py UVMComponent.set_domain")])
p("B25", "Settings given on the command line take effect exactly as given",
  "get_args, get_plusargs, get_uvm_args, get_arg_matches and get_arg_value(s) give exactly the arguments asked for, in order. +UVM_VERBOSITY sets the verbosity of "
  "all components (the first of several, with a warning; an illegal one is UVM_MEDIUM with a warning). +uvm_set_verbosity, +uvm_set_action and +uvm_set_severity "
  "change exactly the components, ids, severities and phases or times named; +uvm_set_inst_override and +uvm_set_type_override set factory overrides; "
  "+uvm_set_config_int (any base) and _string store the value for exactly the scopes named; +UVM_TIMEOUT and +UVM_MAX_QUIT_COUNT set the limits, overridable or not, and "
  "the limits end the run; +UVM_TESTNAME selects the test; +uvm_set_default_sequence starts the sequence. A malformed setting is reported and skipped and stops nothing else.",
  ["inputs", "configurations", "schedules"],
  "1 argument of 4 symbolic characters (thorough 2), 1-2 settings of each kind, 3 components, symbolic counts and times up to 20",
  "tests give one fixed set of arguments", ["base/uvm_cmdline_processor.py", "base/uvm_root.py", "base/uvm_component.py"],
  [("arguments", "base/uvm_cmdline_processor.py UVMCmdlineProcessor.get_arg_matches"), ("verbosity", "base/uvm_component.py UVMComponent.m_set_cl_verb"),
   ("root", "base/uvm_root.py UVMRoot.m_process_config"), ("limits", "base/uvm_root.py UVMRoot.m_do_timeout_settings")])

p("R15", "A register model is one tree whose parts are found, named and locked as built",
  "Blocks, register files, registers, memories, fields and maps have the full names, parents and lists (own or all below, in "
  "order) of the tree in which they were built, for any tree; a register, field or map of a name is the first in that order, or "
  "none with a warning; the default map is the first or the one set. Overlapping or excess fields, additions made twice, to a "
  "locked block or to another block's map, and two top blocks of one name are reported and change nothing. Locking locks "
  "everything below. Coverage models are present, built and on exactly where they were declared, included and turned on.",
  ["inputs", "configurations", "histories"],
  "forests of 3 blocks (thorough 4), 2 registers, a memory, 3 fields of any position and size, 2 maps (thorough 3) with any "
  "offsets and nesting, 2 register files (thorough 3), any 4-bit sets of coverage models",
  "tests build one model and look up names that exist",
  ["reg/uvm_reg_block.py", "reg/uvm_reg.py", "reg/uvm_mem.py", "reg/uvm_reg_map.py", "reg/uvm_reg_file.py", "reg/uvm_reg_field.py", "base/uvm_pool.py"],
  [("blocks", "reg/uvm_reg_block.py UVMRegBlock.add_reg, add_mem, add_block, lock_model, get_reg_by_name, get_map_by_name"),
   ("fields", "reg/uvm_reg.py UVMReg.add_field"),
   ("maps", "reg/uvm_reg_map.py UVMRegMap.add_submap, add_reg, add_mem"),
   ("memories", "reg/uvm_mem.py UVMMem.get_local_map, get_default_map"),
   ("files", "reg/uvm_reg_file.py UVMRegFile.get_full_name")])

p("R16", "Back-door accesses reach exactly the HDL objects their paths name",
  "The full HDL paths of a block, register file, register or memory are its own paths under every path of its parents, for the "
  "kind asked for or the default kind, from the root path down; a kind that is not there is an error. A back-door write puts "
  "into each slice of each copy exactly its bits of the value the access policy leaves, and nothing anywhere else; a read "
  "returns the slices put together, with the side effects of the policy; copies that differ and objects that are not in the "
  "design give a not-OK status. The same holds for each location of a memory, by write, read, bursts, peek and poke.",
  ["inputs", "configurations", "faults"],
  "2 blocks with up to 2 register files, 0-2 paths each, any 1-character names; 4-bit registers (thorough 7) in 5 layouts, 5 "
  "policies; 4-location memories in 3 layouts, any offset and values; Verilator and other simulators' naming",
  "no test uses HDL paths; examples need a simulator",
  ["reg/uvm_reg.py", "reg/uvm_mem.py", "reg/uvm_reg_block.py", "reg/uvm_reg_file.py", "dpi/uvm_hdl.py"],
  [("paths", "reg/uvm_reg.py UVMReg.get_full_hdl_path"),
   ("blocks", "reg/uvm_reg_block.py UVMRegBlock.get_full_hdl_path"),
   ("registers", "reg/uvm_reg.py UVMReg.backdoor_write, backdoor_read_func"),
   ("memories", "reg/uvm_mem.py UVMMem.backdoor_write, backdoor_read_func, peek, poke"),
   ("objects", "dpi/uvm_hdl.py uvm_hdl.get_obj")])

p("B26","Comparators pair two streams in order and count every match and mismatch","An in-order comparator pairs the i-th item of one stream with the i-th of the other, whatever their relative timing, as soon as both have arrived; each pair is a match exactly when the comparison policy (equality for built-in values, compare() for objects, or the user's own) says so, is counted once, published once in order with the after item first, and reported as an error when it is a mismatch; flush sets the counts back. The algorithmic comparator does the same with each before item transformed. Pairs are values: equal exactly when both parts are equal, and a copy has equal parts of its own.",["inputs","schedules"],"up to 3 items per stream with symbolic values, in every order of arrival on a grid of gaps; policies that answer with any true or false value; pairs of built-in values, objects or none","a scoreboard that misses one class of mismatch passes every test that only shows it matching items; all values and arrival orders are covered here",["comps/uvm_in_order_comparator.py","comps/uvm_algorithmic_comparator.py","comps/uvm_pair.py","comps/uvm_policies.py"],[("pairing","comps/uvm_in_order_comparator.py UVMInOrderComparator.run_phase"),("transform","comps/uvm_algorithmic_comparator.py UVMAlgorithmicComparator.write"),("pairs","comps/uvm_pair.py UVMClassPair, UVMBuiltInPair"),("policies","comps/uvm_policies.py UVMBuiltInComp, UVMClassComp")])

p("B27","uvm_do runs the very object on the sequencer, in turn, and randomizes it in time","Each function of the uvm_do and uvm_send family executes the item or sequence it is given exactly once, on the sequencer asked for (else that of the calling sequence), as a child of the calling sequence, at the priority given (else that of the parent), and returns when it is done: an item is randomized once after its grant and before it reaches the driver, a sequence once before it starts unless told not to, with exactly the constraints given; uvm_send does not randomize; pre_do, mid_do, post_do and the hooks of a sequence happen in the documented order. uvm_create makes a new object of the type the factory resolves to, belonging to the sequence and sequencer.",["inputs","schedules"],"one call against a rival sequence, two sequencers, three priorities, items, sequences and bare sequences, symbolic start, first get and service times","the examples call each function once with no one else on the sequencer; the wrong sequencer, priority or moment of randomization shows only in competition",["macros/uvm_sequence_defines.py","seq/uvm_sequence_base.py"],[("do","macros/uvm_sequence_defines.py uvm_do_on_pri_with"),("send","macros/uvm_sequence_defines.py uvm_send_pri"),("create","macros/uvm_sequence_defines.py uvm_create_on"),("items","seq/uvm_sequence_base.py UVMSequenceBase.start_item")])

p("B28","A transaction keeps its times, fires its events, and is recorded as it ran","Accepting, beginning and ending a transaction, directly or through a component, sets its accept, begin and end time to the time told or else the current one, calls its hooks and triggers its events once, at once. With recording on, a component records every transaction exactly once, on its stream of the name asked for, from its begin to its end time, with its label, linked to its parent and to the transaction's own record; handles are distinct and find the recorder until it is freed; freeing a stream frees its recorders. Events and errors are recorded at one time. With recording off nothing is recorded. Only links between recorders and streams of the database are established.",["inputs","histories"],"up to 3 transactions in sequence or overlapping, symbolic times given or not, three streams, parents, freed or not; a recording database that logs every call","a record that is missing, on the wrong stream, closed twice or at the wrong time does not fail a testbench, and no test looks at the records",["base/uvm_transaction.py","base/uvm_component.py","base/uvm_recorder.py","base/uvm_tr_stream.py","base/uvm_tr_database.py","base/uvm_links.py"],[("times","base/uvm_transaction.py UVMTransaction.m_begin_tr, end_tr, accept_tr"),("recording","base/uvm_component.py UVMComponent.m_begin_tr, end_tr, record_event_tr"),("recorders","base/uvm_recorder.py UVMRecorder.close, free, get_handle"),("streams","base/uvm_tr_stream.py UVMTrStream"),("links","base/uvm_tr_database.py UVMTrDatabase.establish_link")])

p("B29", "Data access policies refuse exactly the accesses they forbid",
  "A simple-lock value is the one last set while it was not locked; a get-to-lock value is the one last set before it was first "
  "read; a set-before-get value can be read, or be tried, once it was set, nothing included. An access that the policy forbids "
  "changes nothing and is reported as one error; any other is not. A sequence protects its starting phase and its automatic "
  "objection so: each can be changed until it was looked at, a run with both objects to that phase from before its body until it "
  "is over, once, and to no other, and after a run both can be set anew.",
  ["inputs", "histories"],
  "any history of 4 operations (thorough 6) with symbolic values; for sequences, any 4 of setting, reading and running, 2 phases",
  "tests set and read once; a policy that opens up in some later state, or refuses a legal access, shows only in longer histories",
  ["dap/uvm_simple_lock_dap.py", "dap/uvm_get_to_lock_dap.py", "dap/uvm_set_before_get_dap.py", "seq/uvm_sequence_base.py"],
  [("simple lock", "dap/uvm_simple_lock_dap.py uvm_simple_lock_dap"),
   ("get to lock", "dap/uvm_get_to_lock_dap.py uvm_get_to_lock_dap"),
   ("set before get", "dap/uvm_set_before_get_dap.py uvm_set_before_get_dap"),
   ("sequences", "seq/uvm_sequence_base.py UVMSequenceBase.start, set_starting_phase, set_automatic_phase_objection")])

p("B30", "A TLM2 call reaches the other end of its socket unchanged, through any between",
  "However many passthrough sockets, ports and exports lie between an initiator and a target, and in whatever order they were "
  "connected, a blocking call and a forward call reach exactly that target, and a backward call exactly that initiator (or the "
  "object given to implement it), once, with the very transaction, phase and delay; its answer comes back, a blocking call "
  "returns when the target is done, and what the other side changed is seen. A call without a delay is an error and reaches no "
  "one; a connection to another kind of interface is refused.",
  ["inputs", "configurations"],
  "one or two initiator-target pairs with up to 4 passthrough sockets, both kinds, connected and resolved in several orders, any "
  "transaction data, phase, answer and service time",
  "tests and examples connect one socket directly to another; every way through a hierarchy is covered here",
  ["tlm2/uvm_tlm2_sockets.py", "tlm2/uvm_tlm2_sockets_base.py", "tlm2/uvm_tlm2_imps.py", "tlm2/uvm_tlm2_ports.py",
   "tlm2/uvm_tlm2_exports.py", "base/uvm_port_base.py"],
  [("sockets", "tlm2/uvm_tlm2_sockets.py UVMTLMNbInitiatorSocket.connect, UVMTLMNbPassthroughInitiatorSocket.connect"),
   ("interfaces", "tlm2/uvm_tlm2_imps.py UVM_TLM_NB_TRANSPORT_FW_IMP, UVM_TLM_B_TRANSPORT_IMP"),
   ("binding", "base/uvm_port_base.py UVMPortBase.resolve_bindings")])

NA = {}
