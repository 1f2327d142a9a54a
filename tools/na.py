NA["C29"] = "the worker pool is concurrent (channels, goroutines, schedules): sequential function contracts cannot express or decide it, and no concurrent separation-logic verifier for Go is available here"
# within the family's reach, but not brought to a proof in the time available: see DESIGN.md
NA["C04"] = "not claimed: the functions the workbook reader consists of (record reading, strings, shared strings, decryption, formatter) are proved free of panics under C08, C09, C10 and C07, but WorkBook.loadFromStream2, which ties them together, exceeds the verifier's time limit (one function with a nested loop over records and a switch of nine record types), so the whole property has no complete proof"
NA["C05"] = "not claimed: parseSheet and parseHyperlink still have genuine unrepaired defects (short records, shared-string index off by one, unchecked hyperlink lengths; see DESIGN.md), and the 400-line parseSheet is beyond what the verifier discharges in one unit"
NA["C06"] = "not claimed: parseSheet of the XML reader still has genuine unrepaired defects (unchecked shared-string and style indexes, empty text; see DESIGN.md), and no contracts were written for the token loops"
NA["C12"] = "not claimed: the property is one postcondition of parseSheet over a table indexed by record contents; its record loop (25 record types) is beyond the verifier's reach as one unit"
NA["C13"] = "not claimed: the merge loops are the tails of the two parseSheet functions, which are beyond the verifier's reach as single units, and extracting them would verify text that does not run"
NA["C15"] = "not claimed: depends on the XML token loop of parseSheet, which has unrepaired defects (see DESIGN.md) and whose decoder contract (arbitrary tokens) cannot express document structure without a specification of XML"
NA["C24"] = "not claimed: the XML reader has no hidden listing and ignores the stored visibility, so the property does not hold for it; repairing that means adding a feature (see DESIGN.md)"
NA["C28"] = "not claimed: isolation is a frame condition over every function of every package; parseSheet of both readers is outside the verifier's reach, so the frame of the whole cannot be discharged (frames of all functions under contract are checked with their properties)"
