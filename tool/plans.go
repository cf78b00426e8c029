package main

type plan struct {
	level  string
	rule   string
	bounds string
	jobs   []job
	assume []string
}

var commonAssumptions = []string{
	"amd64 processor: the arm64 assembly runs instruction by instruction in an emulator of ours (mc/emu), where listed",
}

func tapeCPU(part string, cpus ...string) []job {
	js := []job{{Variant: "tape", Part: part, shards: 8}}
	for _, c := range cpus {
		if c == "noasm" || c == "arm64" {
			js = append(js, job{Variant: c, Part: part, shards: 2})
		} else {
			js = append(js, job{Variant: "tape", CPU: c, Part: part, shards: 2})
		}
	}
	return js
}

func plainJobs(part string) []job { return []job{{Variant: "plain", Part: part, shards: 8}} }

func soloJob(part string) []job { return []job{{Variant: "plain", Part: part, shards: 1}} }

func schedJobs(part string) []job { return []job{{Variant: "sched", Part: part, shards: 8}} }

// raceJobs: the scheduled build with the race detector, with and without the
// assembly (whose memory accesses the detector does not see).
func raceJobs(part string) []job {
	return []job{{Variant: "race", Part: part, shards: 4}, {Variant: "racego", Part: part, shards: 8}}
}

func cat(a ...[]job) []job {
	var o []job
	for _, x := range a {
		o = append(o, x...)
	}
	return o
}

var lowCPUs = []string{"noavx2", "nossse3", "none", "noasm", "arm64"}

var plans = map[string]plan{
	"C01": {level: "exploration",
		rule:   "A case is one split call (function, n, t, length, draws of every random source) whose shares are combined in several subsets and orders; non-trivial = the split succeeded and Combine's result was compared with the secret. Distinct by (function, n, t, length, subset and order or stream).",
		bounds: "all 5 split functions; (n,t) grid: all pairs n<=40 (thorough: all n<=255) plus edges to 255; every subset and (up to 5 shares) every order for n<=7 (9); every length 1..1300 (4200) and around powers of two to 140000 (1 MiB), single sizes to 4 MiB (32 MiB), SplitP at 2^32 and 2^32+1500 bytes (quick: given up after 1.5 s unless it returns); the product of 13 n, 14 t and 46 lengths up to a work limit of 6M (200M); about 100 special contents (runs, zero ends, padding, length fields) x 15 lengths x 4 shapes; every secret byte x coefficient on 64K streams with 255 shares; every value of the two leading random bytes, constant runs, single deviations; 4 lower CPU levels incl. the assembly-free build, and the arm64 assembly emulated; object: histories of requests to one generator and worker (each n 9 (24) times, all triples of about 26 requests, 8 (24) runs of 400 (3000)); huge: secrets to 4 MiB (32 MiB), wide shapes to 600011 bytes; pairs: all 65536 byte pairs at both ends, a de Bruijn string of all pairs, format openings, shares as secrets, texts",
		assume: []string{"randomness is modelled at crypto/rand, math/rand and the cipher stream interface; code that draws from anywhere else is outside the model"},
		jobs:   cat(tapeCPU("grid", lowCPUs...), tapeCPU("subsets"), tapeCPU("lengths", lowCPUs...), tapeCPU("values", "none", "noasm"), tapeCPU("draws"), tapeCPU("huge"), tapeCPU("cross"), tapeCPU("contents"), tapeCPU("object"), tapeCPU("pairs"), soloJob("giant"))},
	"C02": {level: "exploration",
		rule:   "A case is one split call; its shares are interpolated with the reference field (all coefficients recovered and every share evaluated). Non-trivial = n shares were fully checked. Distinct by (function, n, t, length or stream).",
		bounds: "as C01 without subsets: (n,t) grid, lengths, values, draws, CPU levels, cross product, contents and histories of one object; sweep: every (t, length) with at most 2048 (16384) coefficients, and products next to powers of two to 2^17 (2^20; some t: 2^22, 2^25), on constant streams, on which all positions must have equal coefficients (what looks odd is checked exactly); arm64 and huge and pairs as C01",
		assume: []string{"randomness is modelled at crypto/rand, math/rand and the cipher stream interface; code that draws from anywhere else is outside the model"},
		jobs:   cat(tapeCPU("grid", lowCPUs...), tapeCPU("lengths", lowCPUs...), tapeCPU("values", "none", "noasm"), tapeCPU("draws"), tapeCPU("huge"), tapeCPU("cross"), tapeCPU("contents"), tapeCPU("object"), tapeCPU("sweep"), tapeCPU("pairs"))},
	"C03": {level: "exploration",
		rule:   "A case is one (function, n, t, secret). exact: the split is run once for every value of the random bytes its coefficients are drawn from, and every (t-1)-subset's bytes must take each value equally often. rank: one execution per random bit; the dependence of each (t-1)-subset's bytes on the random bits must have full rank over GF(2) (the map from random bytes is checked to be affine and byte-wise bijective on each run). Non-trivial = the case reached the counting or rank verdict.",
		bounds: "exact: all 256 secrets x all coefficients for n<=3, all 65536 pairs of coefficient bytes for 7 shapes; rank: 21 (28) shapes up to n=255 and 257 (1025) bytes; long: lengths to 131073 (1 MiB), pairwise distinctness of coefficient columns over 8 streams; sources: the random byte behind every coefficient, traced by group changes, must be its own (SplitP above 1000 bytes too, goroutines run one after another); degree: every t to 255 with n=t and (quick: about 80 of them) n=255: no coefficient constant or a copy over 8 streams; columns: the same for n=t and every length with at most 1024 (6000) coefficients; sweep: as C02, odd results traced",
		assume: []string{"randomness is modelled at crypto/rand, math/rand and the cipher stream interface; code that draws from anywhere else is outside the model"},
		jobs:   cat(tapeCPU("exact"), tapeCPU("rank"), tapeCPU("long", "none", "noasm"), tapeCPU("sources"), schedJobs("sources"), tapeCPU("degree"), tapeCPU("sweep"), tapeCPU("columns"))},
	"C04": {level: "exploration",
		rule:   "A case is a history of operations on one generator and one worker. exact: all 65536 draws behind two operations' bytes; histories: joint rank of everything the history delivered, plus every keystream byte perturbed to see which operations it decides (at most one may). Distinct by history.",
		bounds: "all histories of length 2 over 10 generator operations and length 2 and 3 over 3 worker operations, length 3 over generator operations (quick: every 7th; thorough: all); long histories with operations of up to 70001 bytes; runs of 130 (1100) operations in several rhythms; sources: owner of every delivered value in long runs, traced by group changes; far: windows around every power of two to 2^33 (2^35) bytes of one generator share no 8 bytes; large: requests of many sizes after one another, no 8 bytes delivered twice; randomizer: histories over the randomizer's reads and permutations, each keystream byte perturbed",
		assume: []string{"randomness is modelled at crypto/rand, math/rand and the cipher stream interface; code that draws from anywhere else is outside the model"},
		jobs:   cat(tapeCPU("exact"), tapeCPU("histories"), tapeCPU("long"), tapeCPU("repeat"), tapeCPU("sources"), tapeCPU("large"), tapeCPU("randomizer"), plainJobs("far"))},
	"C05": {level: "exploration",
		rule:   "A case is one split or constructor call. Only the OS randomness is treated as unknown (the seedable sources are fixed tapes): the shares / key must still be uniform (rank), and the key of a new generator must depend on >=128 OS-random bits, injectively per byte.",
		bounds: "3 OS-driven Shamir splits, krawczyk.Split: 8 (11) shapes; constructors NewCSPRNG, NewRandomizer, NewWorker after 0..2 other constructions, 4 streams, every value of every 4th byte and every single bit of the others; sources: every coefficient and key byte traced to an OS byte of its own; caller: a randomizer passed by the caller is the only source; faults: each of the first 12 reads of the OS source failing or coming up short in 56 ways; sweep: every (t, length) with few coefficients and next to powers of two on constant streams, odd results traced to the OS's bytes",
		assume: []string{"randomness is modelled at crypto/rand, math/rand and the cipher stream interface; code that draws from anywhere else is outside the model"},
		jobs:   cat(tapeCPU("rank"), tapeCPU("constructors"), tapeCPU("faults"), tapeCPU("sources"), schedJobs("sources"), tapeCPU("caller"), tapeCPU("sweep"))},
	"C07": {level: "exploration",
		rule:   "threshold: a case is one split, all subsets of fewer than t shares are combined and must fail; keys: a case is one split configuration, whose key and any t-1 metadata shares must be jointly of full rank in the random bits, and whose data part must equal the reference ciphertext's Reed-Solomon rows.",
		bounds: "every subset below t for n<=7 (10) and 6 lengths; large n with t-1 shares; 7 shapes up to n=255 for keys, twice in a row from one generator; forged: below-threshold shares whose headers claim every other length; degree and sources: every t to 255 as in C03, key included; sweep: as C02, key positions equal, odd results traced",
		assume: []string{"randomness is modelled at crypto/rand, math/rand and the cipher stream interface; code that draws from anywhere else is outside the model"},
		jobs:   cat(tapeCPU("threshold"), tapeCPU("keys"), plainJobs("forged"), tapeCPU("degree"), tapeCPU("sources"), tapeCPU("sweep"))},
	"C06": {level: "exploration",
		rule:   "A case is one SSMS split; subsets of its shares in several orders and with nil holes are combined and compared. Distinct by (function, n, t, length, subset).",
		bounds: "2 split functions; (n,t): all n<=24 plus edges to 255 (thorough: full edge grid); every subset of >=t shares for n<=7 (9); every length to 700 (2200), powers of two to 140000 (1 MiB), 16 MiB; every value of each of the first 60 random bytes; constant runs; product of 13 n, 14 t and 46 lengths up to a work limit; about 100 special contents, in the secret and in the ciphertext, x 15 lengths x 4 shapes; histories of one object as in C01; thorough: 2^31+5 bytes; pairs: all byte pairs at both ends of secret and ciphertext, shares written by the reference codec",
		assume: []string{"randomness is modelled at crypto/rand, math/rand and the cipher stream interface; code that draws from anywhere else is outside the model"},
		jobs:   cat(tapeCPU("grid"), tapeCPU("subsets"), tapeCPU("lengths", "none"), tapeCPU("draws"), tapeCPU("cross"), tapeCPU("contents"), tapeCPU("object"), tapeCPU("pairs"), soloJob("giant"))},
	"C08": {level: "exploration",
		rule:   "A case is one split (or one set of reference-written shares) compared byte for byte with an independent codec (AES-OFB, systematic RS by interpolation, metadata sharing) and decoded by it / by the library. Distinct by (function, n, t, length).",
		bounds: "(n,t): all n<=20 plus edges to 255, 5 lengths each; every length to 700 (2200), powers of two to 140000 (1 MiB), 16 MiB; reference-written shares with 4 tag/key patterns; cross product, contents and histories of one object as C06",
		jobs:   cat(tapeCPU("grid"), tapeCPU("lengths"), tapeCPU("foreign"), tapeCPU("cross"), tapeCPU("contents"), tapeCPU("object"))},
	"C09": {level: "exploration",
		rule:   "A case is one (function, n) with every threshold of the list; each call must be refused without shares or succeed with n shares. Distinct by (function, n, t).",
		bounds: "n and t each over -3..262 and 30 extremes (min/max int, multiples of 256, 2^16.., 2^56+2, 2^62+3), all illegal pairs; all legal pairs (SSMS in quick: thinned above n=32); empty, nil and zero-length secrets; SSMS secrets of 2^32, 2^32+1 and 2^33+5 bytes (mapped, never touched); large: every length to 1100 (5000) and around powers of two to 2^22 (2^24), some with more than 2^24 coefficients",
		jobs:   cat(tapeCPU("params"), tapeCPU("legal"), tapeCPU("large"), soloJob("giant"))},
	"C10": {level: "exploration",
		rule:   "A case is the set of all lists that start with two given symbols. Each list is combined and regenerated; must-fail lists must give an error, all must return. Distinct by list.",
		bounds: "all lists up to length 4 (5) over 14 Shamir symbols and up to 3 (4) over 21 SSMS symbols x up to 21 part-count pairs; every byte of each share over all 256 values, every truncation and extension; positions: one bad share of 8 kinds and each duplicate tag at every position (quick: thinned above 70 shares) of lists of up to 255 shares; longer: a share longer or shorter by amounts at which lengths wrap (256 .. 2^24); all triples of strings of <=2 bytes over 4 values; counts to extremes",
		jobs:   cat(tapeCPU("shamir"), tapeCPU("ssms"), tapeCPU("bytes"), tapeCPU("positions"), tapeCPU("longer"))},
	"C12": {level: "exploration",
		rule:   "Every operand pair in three orders, every base with each exponent of the list, division by zero for every dividend followed by all divisions; compared with carry-less multiplication. Distinct by operand pair / (base, exponent).",
		bounds: "all 65536 operand pairs x 5 operations x 3 orders; 256 bases x exponents 0..1100 (70000), around every power of two, the 520 largest ints; memory: every operation right after itself on every related operand pair; between: all the operations on a pair in every order of two",
		jobs:   cat(tapeCPU("pairs"), tapeCPU("exp"), tapeCPU("zero"), tapeCPU("memory"), tapeCPU("between"))},
	"C13": {level: "exploration",
		rule:   "A case is (function, length) with several alignments, or (function, constant) with all values in all lanes. Outputs, addend and guard bytes around both vectors compared with the scalar reference. Distinct by (function, length, offset or constant).",
		bounds: "lengths 0..660 (4100) and to 65537 (1 MiB+127); all 64 alignments; all 256 constants x all values x all 64 lanes; vectors ending and starting at unmapped pages, lengths 0..400; CPU levels native, no AVX2, no SSSE3, none, the noasm build, and the arm64 assembly emulated; large: 10 lengths to 4 MiB (64 MiB)",
		jobs:   cat(tapeCPU("add", lowCPUs...), tapeCPU("mul", lowCPUs...), tapeCPU("table", lowCPUs...), tapeCPU("pages", lowCPUs...), tapeCPU("large", "noavx2", "nossse3", "none", "noasm"))},
	"C14": {level: "exploration",
		rule:   "A case is a set of read sequences on one seed compared byte for byte with crypto/cipher's AES-CTR. Distinct by read sequence / seed / request sequence.",
		bounds: "all sequences of 15 read sizes to depth 4 (5); counters wrapping in every byte of the IV, and carries out of 14 bit positions 0..65537 (2^22) blocks into the stream in 7 rhythms; every byte value at each of 32 key/IV positions; caller overwriting the key slice at 4 times; all request sequences over 13 requests to depth 3 (4); 4 GiB (8 GiB) into the stream; single reads to 64 MiB (1 GiB)",
		assume: []string{"crypto/cipher's CTR and crypto/aes are the oracle"},
		jobs:   cat(plainJobs("chunks"), plainJobs("ivs"), plainJobs("wraps"), plainJobs("keys"), plainJobs("callers"), plainJobs("mixed"), plainJobs("far"))},
	"C15": {level: "exploration",
		rule:   "A case is (function, n) with a set of draws imposed on the random stream. Distinct by (function, n, draw pattern or ordering).",
		bounds: "n<=6 with every keystream over a spanning alphabet and all orderings reached; n 0..255 with each constant stream; each single draw deviating to boundary values (all for many n); each pair of draws at 4 values; all 4^7 (4^9) starts with duplicates for unique bytes; object: all triples of 38 requests to one object, each request 60 times; entropy: for every n the bytes of the stream that decide the ordering (found by flipping each) must be enough for n! orderings",
		assume: []string{"randomness is modelled at crypto/rand, math/rand and the cipher stream interface; code that draws from anywhere else is outside the model"},
		jobs:   cat(tapeCPU("small"), tapeCPU("const"), tapeCPU("single"), tapeCPU("pairs"), tapeCPU("dups"), tapeCPU("object"), tapeCPU("entropy"))},
	"C16": {level: "model_checking",
		rule:   "Stateless model checking of the real code: every statement and every synchronisation operation is a scheduling point of a cooperative scheduler; all interleavings with at most the given number of preemptions are executed and each execution's results are judged; in the races part the Go race detector watches every execution, seeing only the synchronisation the code itself makes. states = scheduling decisions, transitions = steps executed, traces_validated_against_impl = executions (each is an execution of the implementation).",
		bounds: "all pairs of 10 calls, cold and with recycled buffers, 1 preemption (thorough 2, 2 visits per site); 6 pairs with 2 preemptions; 12 sets on one shared generator or worker, 1 to 5 preemptions; SplitP with up to 4 goroutines alone and next to others; triples. races: all pairs of 17 calls (constructors, worker and field operations included) under the race detector at every schedule with one preemption, with assembly and without. Preemptions only at the first k and then power-of-4 numbered visits of a statement by a thread (k = 12, 6, 3, 2 or 1); crowd: 4 and 17 (to 65) calls stopped together at every point; large: calls on 9001 to 131075 bytes (1 MiB), switched only where they synchronise. A writer waiting for an RWMutex holds up later readers, as Go's does",
		assume: []string{"sequentially consistent interleavings of whole statements; effects of weak memory ordering inside a statement are not explored", "sync.Pool is modelled as a LIFO stack that never drops a buffer"},
		jobs:   cat(schedJobs("calls"), schedJobs("deep"), schedJobs("sharedgen"), schedJobs("parallel"), schedJobs("three"), schedJobs("crowd"), schedJobs("large"), raceJobs("races"))},
	"C19": {level: "model_checking",
		rule:   "sequences: every sequence of Get and Put(i-th held) on the real pool next to a set model; schedules: every interleaving of goroutine scripts under the cooperative scheduler. states = model states / decisions, transitions = pool operations / steps, traces = sequences / executions.",
		bounds: "capacities 1..3, all sequences to depth 12 (14) with <=4 held; constructor arguments to extremes; 13 script sets (2 or 3 goroutines) x capacity 1,2 x 0..2 idle, 3-4 (4-6) preemptions; sizes: buffers of 53 capacities to 8 MiB, alone and mixed, under pools of 6 capacities, and every sequence of gets and sized puts to depth 7 (9)",
		assume: []string{"sequentially consistent interleavings of whole statements; effects of weak memory ordering inside a statement are not explored", "sync.Pool is modelled as a LIFO stack that never drops a buffer"},
		jobs:   cat(schedJobs("sequences"), schedJobs("capacity"), schedJobs("sizes"), schedJobs("schedules"))},
	"C17": {level: "model_checking",
		rule:   "Explicit enumeration of all histories: a state is a history, and after it every operation is run on fixed draws and compared with the same call in the initial process state. traces_validated_against_impl = histories executed on the implementation.",
		bounds: "24 operations (splits of several sizes, combines, regenerations, refused calls, generator requests); all histories to length 2 (3); all ordered pairs of 11 (22) lengths x 4 (7) shapes per split function after two equal calls; every (n,t) of a grid in 4 orders in one process; tags: every ordered pair of share lists in 7 families of tag sequences and selections, all pairs of tags in 4 orders; objects: 9 objects made before every history of one or two of 31 operations, used after it; pools LIFO; large: calls on 17000 bytes to 1 MiB (4 MiB) after one another; faults: every operation after each operation ended by a failing OS source at each of 4 reads",
		assume: []string{"sync.Pool is modelled as a LIFO stack that never drops a buffer"},
		jobs:   cat(schedJobs("histories"), schedJobs("lengths"), schedJobs("parameters"), schedJobs("objects"), schedJobs("large"), schedJobs("faults"), tapeCPU("tags", "noasm"))},
	"C18": {level: "exploration",
		rule:   "A case is one call with its inputs in guarded memory with 0, 1 or 40 spare bytes, or adjacent; inputs compared before/after, then overwritten; outputs overwritten and appended to, in turn. Distinct by (call, spare).",
		bounds: "7 (28) sizes x 4 (8) shapes x all split, combine, regenerate, worker calls, both alignments of lists, tags from 0, equal and zero bodies; generator requests; object: all triples of 20 requests to one object with results kept, and overwritten; large sizes; reuse: every ordered pair of calls on the same memory with changing contents, in 5 (7) patterns",
		jobs:   cat(tapeCPU("inputs", "none", "noasm"), tapeCPU("outputs"), tapeCPU("later", "noasm"), tapeCPU("object"), tapeCPU("reuse"))},
	"C20": {level: "exploration",
		rule:   "A case is a set of points combined by the library and by Lagrange's formula. Distinct by tag set or order.",
		bounds: "all ordered pairs of tags x 1280 (65536) byte pairs; all 2.7M tag triples x basis bytes; 4..256 points with 4 tag patterns and a basis of the bytes; every order of 4 sets of 5 (7); lengths 1..300 (3000); 34 lengths to 131073 (4 MiB) x 5 tag sets x 8 ways for columns to repeat; like columns in every arrangement, 64 to 255 points on long shares",
		jobs:   cat(tapeCPU("pairs"), tapeCPU("triples"), tapeCPU("many"), tapeCPU("orders"), tapeCPU("long"))},
	"C21": {level: "exploration",
		rule:   "names: every edit of the two names; arguments: every (length, n, k) of the lists, worker against package; combine: every list over 16 symbols to length 3; sequences: every request sequence over 11 requests. Distinct by name / arguments / list / sequence.",
		bounds: "about 500 names at edit distance 1 and others; 8 lengths x 21 x 21 counts x 2 algorithms; lists to length 3 x 6 counts; sequences to depth 4 (5); longer: lists of up to 255 shares against 24 x 24 counts; large: to 4 MiB (16 MiB), by one worker and another",
		jobs:   cat(tapeCPU("names"), tapeCPU("arguments"), tapeCPU("combine"), tapeCPU("sequences"), tapeCPU("large"), tapeCPU("longer"))},
	"C11": {level: "exploration",
		rule:   "A case is one sharing, a choice of >=t old shares and a count; new shares' tags and polynomials are checked by reference interpolation over old and new together. Distinct by (sharing, subset, count) or draw.",
		bounds: "5 split functions, n<=12 (30), all t, 5 counts, every subset for n<=5; counts 0..260 from k=2..255 shares; every value of the two leading random bytes; constant and alternating runs; chains of 4 generations; lengths: every share length to 700 (4200) and around powers of two to 100001, every pair and run of tags; contents: 25 ways for columns to resemble each other x 7 tag lists x 3 (9) lengths",
		assume: []string{"randomness is modelled at crypto/rand, math/rand and the cipher stream interface; code that draws from anywhere else is outside the model"},
		jobs:   cat(tapeCPU("grid"), tapeCPU("counts"), tapeCPU("draws"), tapeCPU("lengths"), tapeCPU("contents"))},
	"C22": {level: "exploration",
		rule:   "A case is a call (or two in turn) made over and over: 10 times to warm up, then in growing blocks; goroutines (after waiting for those about to end), open files and heap in use are counted between the blocks. It fails only when every block adds to them. Distinct by call and length.",
		bounds: "about 220 calls, good and refused, at 3 lengths, up to 15360 times each; every length to 300 (2100) and around powers of two to 2^17 in 7 shapes, splits and back; all ordered pairs of the calls",
		assume: []string{"growth is counted in goroutines, open files and bytes of heap and stacks; what is kept must be at least 12 bytes a call to be seen"},
		jobs:   cat(plainJobs("calls"), plainJobs("lengths"), plainJobs("pairs"))},
	"C23": {level: "exploration",
		rule:   "A case is a call (or sequence) made with every secret of a list of equal length under equal random draws, with standard output and error, the log, the environment and the working and temporary directories under watch; errors (text, wrapped errors, formatted fields), panics and everything written must be equal. draws: the same for each random byte that decides no tag. Distinct by call and length.",
		bounds: "about 220 calls, good and refused, 9 (50) lengths to 4096, splits to 70001 bytes; 10 secrets per length; pairs of calls (quick: every 5th); 12 x 12 illegal counts for every split; lists broken at every position; every random byte of 7 splits x 3 shapes; streams: random streams with runs of one value, and 300007-byte splits in which every rare combination occurs",
		assume: []string{"timing, memory and processor side channels are not observed", "what a call writes elsewhere than to file descriptors 1 and 2, the log, its working and temporary directory or its environment is not observed"},
		jobs:   cat(tapeCPU("calls"), tapeCPU("pairs"), tapeCPU("draws"), tapeCPU("refused"), tapeCPU("streams"))},
	"C24": {level: "exploration",
		rule:   "A case is a call made under sequences of outcomes of the OS source's reads (delivered, failing, failing half way, ending, interrupted, coming up short by half, to a byte, to nothing). A call that returns a result all the same is repeated with four other contents of the source, and every protecting byte of the result must change with them. Distinct by call and sequence.",
		bounds: "every sequence of 8 outcomes for the first 3 (4) reads x 3 for all later ones, for splits in 4 shapes (also after a failed one), generators, randomizers and workers made under it; SplitP in 1 (2) shapes in child processes; anywhere: single and lasting faults at each of the first 12 reads in 56 ways (errors of 12 kinds, amounts from nothing to all but one byte)",
		assume: []string{"crypto/rand.Read ends the process when its source fails (as the Go runtime's does); this counts as no result"},
		jobs:   cat(tapeCPU("sequences"), tapeCPU("anywhere"), tapeCPU("parallel"))},
}
