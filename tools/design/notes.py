# extra prose per property: (why static analysis reaches what tests cannot / limits), false alarms corrected
NOTES = {
"C01": "Oracle: the definition itself (#dispatched == #counted per return path). Limits: overflow of the counters is ignored.",
"C04": "Limits: vectors permuted through a constant table are taken as completely written. Early versions flagged bookkeeping "
       "(counters, best values) that only the entries read; the rule now classifies such state instead of listing it.",
"C05": "The abstract domain is the class of each float; arithmetic is evaluated on classes, loops over coordinates are "
       "summarised with one distinguished coordinate at an arbitrary position.",
"C07": "Ownership is inferred, not declared: a new owned field without a destructor is a violation without any change to the rule.",
"C11": "Bounded by what the propagation decides: values it cannot decide count as fine, so a clash of two functions that "
       "depends on undecided data is missed. 37 s quick; thorough also runs every default instance.",
"C12": "Kinds flow through locals, parameters, fields and results; arithmetic ends them, hence an off-by-one (f - 1 for f) is seen "
       "only where position and number kinds meet.",
"C13": "The normal form decides equality of the formulas for all lengths; no sampling.",
"C27": "A filter or range loop written in a shape the rule does not recognise (walking pointers, bit masks) is counted as "
       "undecided and not an alarm. Splitting the text at commas and the conversion of digits are the C library's and "
       "coco_string_split's; they are not judged. That the year names the published instances is data, not judged.",
"C14": "Two parts judge against a table rather than against the program: the usable ranges of the numeric options (as the code's own "
       "warnings define them). Helpers that read options are inlined. Range tests hidden in a predicate function are undecided, not alarms.",
"C19": "The bi-objective data files are buffered by design (only the archive of nondominated solutions is flushed); they are outside the statement.",
"C20": "Pointer parameters are trusted unless somebody tests them; what is decided is every result of a call that can fail.",
"C23": "The carrying-over is a must-analysis per field with helpers opened, so a copy that happens only for some dimensions or kinds is "
       "a violation. Not covered: is_noisy and last_noise_free_values, which are deliberately not carried over today (an observer around "
       "an observer of a noisy problem logs the noisy values); nothing in the interface exposes them.",
"C24": "Limits: the other observers do not refuse tainted problems and recommendations are not refused; the statement says so. "
       "bbob_problem_best_parameter_print (writes the optimum to a hidden file for the post-processing) does not mark the problem and is outside.",
"C26": "Limits: the search order of the AVL tree and its balance are taken for granted (the linked list through it is judged), and "
       "so are the numbers (areas, distances). When the indicator bookkeeping is rewritten in another form than adding and "
       "subtracting single contributions, that part is skipped (with a note in the evidence), not guessed.",
"C25": "Limits: the value of the targets themselves (powers, rounding) is arithmetic on run-time data and not judged; nor are the "
       "numbers printed in a line, except the evaluation number kept in the markers. A trigger verdict that is not a constant "
       "along a path is not compared with its state change.",
"C21": "Differential analysis of the two IRs; no execution of either.",
}
