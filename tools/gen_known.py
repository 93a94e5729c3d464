"""Writes known_findings.json.  A "fixed" entry documents a repaired defect and
suppresses nothing; a "known" entry (none at present) would name the exact
signature of a violation that is reported as KNOWN-FINDING."""
import json, os
FIXED = [
 ("R04", "eb3f0de", "an exchange with a reply could end too early or too late: the next command was scheduled with the wrong event id and the previous exchange's duration, so commands overlapped replies"),
 ("K06", "e19b281", "invalid scheduling requests (no handler, non-iterable arguments) were accepted and failed later, ending the run"),
 ("K03", "40c66d6", "max_num_events let one event more than the limit run"),
 ("K03", "f887a0a", "a run that ran out of events reported no exit reason"),
 ("K04", "abaa3c2", "elapsed time and the real-time limit followed wall-clock steps"),
 ("K07", "425f465", "simulations shared one module-level logger: a second simulation rerouted the records of the first"),
 ("L02", "6d59be0", "file and console levels below the default level were ignored"),
 ("L02", "c6af9db", "file_name_sep was ignored when the run id is put into the log file name"),
 ("L02", "b254789", "records of custom levels made the coloured console formatter fail"),
 ("R04", "187cda7", "replies started before the command had ended (T1 measured from the wrong moment)"),
 ("R04", "c91be83", "all commands were sent with the full preamble"),
 ("R04", "b9ab00e", "QueryAdjust without replies timed out with a QueryRep's duration"),
 ("R07", "93c4119", "the first target span after power-on had one round more or fewer than rounds_per_target"),
 ("R10", "82c5b60", "a tag leaving the field during an exchange aborted the run, or was counted twice"),
 ("R06", "e7bdfaf", "tags could be given the same EPC/TID"),
 ("R02", "999c7b1", "a tag following QueryAdjust could leave Q outside 0..15"),
 ("R06", "d5eb3d3", "a tag's power was evaluated at the position of the previous update"),
 ("C01", "d94bbc1", "the RFID sweep failed with a KeyError on useadjust/delta"),
 ("C01", "2f922c5", "tag_offset was passed in the wrong unit and writing plots failed when results/ is missing"),
 ("C02", "ec5e1ff", "forked workers inherited one numpy state: parallel RFID runs were copies of one another"),
 ("P01", "fa14d09", "num_missed was not exact for runs that were cut short"),
 ("P01", "a319d28", "miss_rate was not missed over sent"),
 ("P01", "e134d78", "runs in which nothing was sent or acknowledged failed in the finaliser"),
 ("C01", "cc1b561", "a ping-pong sweep printed results against other values than those that produced them"),
 ("R13", "3f59598", "the configured BER distribution was ignored: Rayleigh was used for every run"),
 ("R02", "ada4c06", "the configured session flag persistence was ignored: every tag kept its flags 2 s"),
 ("D01", "8aa1bb2", "tags were numbered on from the previous models of the process"),
 ("K02", "4e6e47f", "the queue listed cancelled events among the future ones"),
 ("R08", "ba51e18", "QueryAdjust announced a change of Q that differs from the one the reader made"),
 ("L03", "cfdb9f5", "after a forced set-up records of levels used before it were filtered by the previous configuration"),
 ("C03", "8283af1", "results and plots saved in the same second (or after the clock was stepped back) overwrote earlier ones; saving failed when results/ is missing"),
 ("C03", "a876513", "a ping-pong sweep whose saving failed was never shown on the terminal"),
 ("L01", "7c277dd", "a console that was closed during a run, or that cannot show a record, aborted the run: logging's own report of the failure raised again"),
 ("K05", "5bddb2f", "a StopIteration raised by an initialiser, handler or finaliser reached the caller as RuntimeError"),
 ("L03", "ed33565", "a logger without destinations wrote warnings and errors to the console"),
]
items = [{"status": "fixed", "property": p, "commit": c,
          "text": "fixed: property=%s %s %s" % (p, c, t)} for p, c, t in FIXED]
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
json.dump(items, open(path, "w"), indent=1); open(path, "a").write("\n")
