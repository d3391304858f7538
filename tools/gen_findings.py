"""Writes known_findings.json: nothing is left unrepaired; every repair is recorded."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('P02', '4a67a73', 'the snapshot was renamed over the save file without being synced: a power loss could leave an empty or torn file'),
 ('P17', '2be2f07', 'a periodic position a rounding error below the box was mapped onto its upper limit: outside the half-open box, in no cell (IndexError), and saved as such (also P02, P06, P10, P11, P15)'),
 ('P07', 'e572866', 'a simplex occurring twice in one list of start simplices was queued twice (and KeyError at its end)'),
 ('P18', '574e2b2', 'with load_quiet only OSError was ignored: many damaged files raised KeyError, ValueError, RuntimeError or TypeError'),
 ('P13', 'd1b1c7a', 'when one evaluation of the initial simplex failed, the others were left running'),
 ('P13', 'cfe929e', 'a search that ended by an exception left its running minimisations on the loop (also P05)'),
 ('P06', '09bda88', 'after one failed periodic save nothing was saved any more, and the final save was skipped (also P05)'),
 ('P05', '3cc12eb', 'KeyboardInterrupt and SystemExit from a gap function left the event loop without a final save and with tasks pending (also P13)'),
 ('P12', '0c9f2a7', 'a BaseException in the search thread was lost and run() returned None or hung; its loop was not closed (also P13)'),
 ('P05', '8ce0700', 'an interrupt that passed through nested tasks skipped the final save'),
 ('P10', '9bd68b9', 'with NaN at another vertex the reported value was NaN although the gap at the reported position was finite'),
 ('P11', '5165434', 'in periodic boxes of fewer than three cells neighbours were counted up to three times'),
 ('P04', '1da9c3b', 'a restarted search forgot which simplices and positions were finished and did them again (also P03)'),
 ('P13', '57cac33', 'KeyboardInterrupt in a caller waiting for the search thread left that thread searching for ever (also P12)'),
 ('P05', 'cac980a', 'a second cancellation during the clean-up skipped the final save'),
 ('P13', 'a3fa310', 'a search that ended before its periodic saving task first ran left that task behind'),
 ('P17', '33322c1', 'io.load raised TypeError for every saved identification result with current h5py'),
 ('P16', '1cb32c4', 'identify raised TypeError (random.sample of a set) whenever a cluster had a neighbour, on current Python'),
 ('P16', '4321c48', 'identify.run raised AttributeError for a ControllerState without explicit feature_size'),
 ('P16', '902ac46', 'the average position in a periodic box whose lower limit is not zero was outside the box'),
 ('P16', '0e17707', 'the dominating_set method raised TypeError for every line (weights missing)'),
 ('P06', '9dd06dc', 'a failing write while saving went unnoticed or crashed the interpreter, because HDF5 wrote to the disk itself (also P17)'),
 ('P12', 'f627b76', 'KeyboardInterrupt raised in the search task itself (e.g. during the final save) left search.run in an event loop that never stops'),
 ('P16', 'c480221', 'the dominating_set method raised NetworkXNoPath when the chosen nodes were not connected'),
 ('P05', 'f511aa5', 'with a relative save_file and a gap function that changes the working directory, everything was saved to a file elsewhere (also P06)'),
 ('P13', '12b90da', 'with searches in several threads, warnings.catch_warnings in the minimisation restored the list of another thread, and all warnings of the program were ignored from then on'),
]
json.dump({'findings': [], 'fixed': ['fixed: property=%s %s %s' % f for f in FIXED]},
          open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
