package main

// rules says, per property, what a case is and what makes one non-trivial.
var rules = map[string]string{
	"C01": "a case is one seeded run: a random dictionary, options, stop words and edits, then 2-4 clients issuing random read-only calls under one random schedule; non-trivial if at least one runnable client was preempted inside a call; distinct by hash of the interleaving and of all results",
	"C02": "as C01, on one shared part-of-speech tagger, tag extracter and text ranker",
	"C03": "a case is one seeded run: 2-4 clients, each with instances of its own (segmenter, tagger, extracter, ranker, IDF table, stop list), execute random histories of loads, edits and queries under one random schedule, some with failing or stalled streams; non-trivial if at least one runnable client was preempted inside a call; distinct by hash of the interleaving and of all results",
	"C04": "a case is one seeded run: 2-4 clients load HMM models and cut Han text under one random schedule; non-trivial if at least one runnable client was preempted inside a call; distinct by hash of the interleaving and of all results",
	"C05": "a case is one seeded run: 2-4 clients send random requests to the service's handlers under one random schedule; non-trivial if at least one runnable client was preempted inside a call; distinct by hash of the interleaving and of all responses",
	"C06": "a case is one seeded run: random dictionary contents loaded by several routes with random delivery of the bytes; every case is non-trivial; distinct by hash of all results",
	"C07": "a case is one seeded run: a random source with a random fault is loaded, used, repaired and loaded again; non-trivial if the fault was delivered; distinct by hash of all results",
	"C08": "a case is one seeded run: a random history of stop-word operations, with failing sources, checked after every step; non-trivial if a removal, emptying or failed load happened; distinct by hash of all results",
	"C09": "a case is one seeded run: a random history of dictionary operations, with failing sources, checked after every step; non-trivial if an operation removed words or failed; distinct by hash of all results",
	"C10": "a case is one seeded run: a random history of dictionary operations, with failing sources, compared at its end with a fresh build; non-trivial if an operation removed words or failed; distinct by hash of all results",
	"C11": "a case is one seeded run: a random history of dictionary operations, with failing sources, and texts segmented after every step; non-trivial if an operation removed words or failed; distinct by hash of all results",
	"C12": "a case is one seeded run: a random history of loads and calls executed under several map orders, schedules and processes; every case with a map iteration of more than one element is non-trivial; distinct by hash of all results",
	"C13": "a case is one seeded run: results and arguments of random calls are kept and looked at again after every later step; non-trivial if anything was kept; distinct by hash of all results and of the interleaving",
	"C14": "a case is one seeded run: a random history of dictionary, IDF and stop-list loads, with failing sources, and extraction and ranking calls; non-trivial if a call returned a tag or a load failed; distinct by hash of all results",
	"C15": "a case is one seeded run: a random history of dictionary operations, with failing sources, texts segmented in every recalculated state, at the end by several clients at once in some; non-trivial if an operation removed words or failed or a client was preempted; distinct by hash of all results and of the interleaving",
	"C16": "a case is one seeded run: a random history of model loads and HMM cuts, or several clients cutting at once under one model; non-trivial if a cut was made under a known model; distinct by hash of all results and of the interleaving",
	"C18": "as C15, with analyses of the tokens of every kind of cut",
	"C19": "as C15, with full and search cuts",
	"C21": "a case is one seeded run: one or several clients, each with a segmenter of its own, execute random histories of embedded loads, edits and failing loads over random embedded contents; non-trivial if anything but an embedded load happened or a client was preempted; distinct by hash of all results and of the interleaving",
	"C22": "as C15, with the lists of the normal and the search mode and the parts of entries",
	"C23": "as C15, with taggings",
	"C24": "as C15, with suggested frequencies and twins that follow them",
	"C25": "a case is one seeded run: after a random history of dictionary operations, with failing sources, a few calls are made with texts or rows of a size, twice and four times that size, each from the same state, and their executed statements counted; non-trivial if a cost was measured; distinct by hash of the counts",
	"C20": "a case is one seeded run: a random history of loads by name, some failing, from simulated bundled and user files; non-trivial if a bundled name was used or a load failed; distinct by hash of all results",
}
