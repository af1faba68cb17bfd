D = 'bounded exhaustive exploration of the real loader against a reference model'
B = 'Holds for every case within the bounds written in DESIGN.md; the reference model and the comparison are trusted, nothing is claimed beyond the bounds.'
INFO = {
 'C01': ('bounded exhaustive exploration of the real loader, conformance oracle', B),
 'C02': (D, B),
 'C04': ('bounded exhaustive exploration with hostile inputs, and enumeration of a fault at every call of user code', B),
 'C05': (D + ' that knows every wrong part of the data', B),
 'C06': (D + ', strict configuration', B),
 'C07': (D + ', all subsets of fields and unknown keys', B),
 'C08': (D + ', all unions of a pool of overlapping types', B),
 'C09': (D + ', conflicts counted by the model', B),
 'C03': ('bounded exhaustive exploration of values of all types through the real dumper and loader, domain decided by the reference model', B),
 'C10': (D + ', all name mappings', B),
 'C11': ('bounded exhaustive exploration of the real loader, snapshots and ownership of objects as monitor', B),
 'C12': ('bounded exhaustive exploration of the real dumper against a reference model, snapshots as monitor', B),
 'C21': ('bounded exhaustive exploration of values and of histories of dumps against a reference model', B),
 'C26': ('bounded exhaustive exploration of values, hints and dumper configurations against a reference model without hints', B),
 'C13': ('breadth first exploration of the histories of one loader, merging equal states of the real object, and all short histories without merging', B),
 'C14': ('breadth first exploration of the histories of one dumper, merging equal states of the real object, and all short histories without merging', B),
 'C15': ('exhaustive exploration of the sequences of operations on several loaders and dumpers, with probes compared to a pristine process', B),
 'C16': ('stateless exploration of all the thread schedules up to a preemption bound of the real code under a controlled scheduler', B),
}
INFO.update({
 'C17': ('exhaustive exploration of lists of handlers, positions and contexts against a reference model', B),
 'C18': ('exhaustive differential exploration of all the spellings of each type of a bounded grammar', B),
})
INFO.update({'C19': ('exhaustive differential exploration of lists of items, kinds of iterables, positions and faults of iterators, with monitors of what is taken', B)})
INFO.update({
 'C22': ('exhaustive exploration of objects, subsets of present fields and contexts on the real loader, factory calls and object identities as monitor', B),
 'C23': ('exhaustive exploration of type expressions of a bounded grammar, against the category they were built from', B),
})
INFO.update({
 'C24': ('exhaustive differential exploration of documents, of all the subsets of their dictionaries made into Namespace, and of odd attribute names', B),
})
INFO.update({
 'C25': ('exhaustive enumeration of the texts of bounded grammars and of their edits, and of grids of values, against independent parsers', B),
 'C20': ('exhaustive differential exploration of recursive classes, documents and contexts against unrolled classes, and of name tables and sequences of loads', B),
})
INFO.update({'C28': ('exhaustive exploration of enums of a bounded pool of values and annotations, documents and contexts, against a reference model', B)})
INFO.update({'C27': ('exhaustive exploration of forms of callables, types, attributes, values and contexts against a reference model, calls of the converter as monitor, and of a fault at each call', B)})

INFO.update({'C29': ('exhaustive exploration of lengths, positions of a special element and containers, both directions, against the outcome for one element alone', B)})

INFO.update({
 'C30': ('exhaustive exploration of faults and reentrant uses at every call of user code, of an interruption at every line of the library and of every remaining size of the stack, on the real code', B),
 'C31': ('exhaustive differential exploration of classes declared with and without deferred annotations, in one and two modules, and of documents', B),
})
