"""What each check consists of: schedules, models, level, assumptions."""
BASE = ["the recorded traces are faithful projections of the public state dictionaries and return values (harness/profiles.py)",
        "TLC evaluates the specification correctly"]
PROPS = {}
TECH = "TLA+ specification of the machine; traces recorded from the library checked against it by TLC"
SCHED = "TLA+ specification; schedules generated by TLC from BitGen.tla carried out on the library; recorded traces checked by TLC"


def prop(id, kinds=(), models=(), assumptions=(), level="model_checking", technique=None, note="", variant=None):
    PROPS[id] = {"kinds": list(kinds), "models": list(models), "assumptions": BASE + list(assumptions), "level": level,
                 "variant": variant, "technique": technique or (SCHED if kinds else TECH), "note": note}


STREAM = "Trace inclusion: every recorded operation, value and state must be a step of StreamTrace.tla (Gen.tla and its engines, written from the publications). "
prop("G01", note=STREAM + "States are sampled at the edges (carries, block ends, extreme words), not exhausted; every word and every state after it is decided by the specification.")
prop("G02", note=STREAM + "States are sampled at the edges (sparse and saturated words, every ring position, block ends), not exhausted.")
prop("G03", note=STREAM + "States and configurations (rotations, multipliers, output functions) are sampled at the edges, not exhausted.")
prop("V01", ["views"], note=STREAM + "Every transition of the abstract draw machine (block position x half word pending x kind of draw) is covered on each of the 53 configurations, from TLC's state graph.")
prop("R01", ["state"], note=STREAM + "Save and restore at every kind of history TLC generates from the abstract machine and from edge states.")
prop("R02", ["copy"], note=STREAM + "Pickle, copy, deepcopy followed by draws, advance, jump, re-seed on either side.")
prop("I01", ["all"], note=STREAM + "Every object is read back after operations on the others; the specification lets only the named object change.")

prop("D01", note=STREAM + "Seeding from integers, arrays and seed sequences of either class (spawned, larger pools), with the optional counter, increment or index, fresh and after a history.")
SEEDN = "Trace inclusion in SeedTrace.tla (SeedSeq.tla: the hash, written from its publication). "
prop("D02", note=SEEDN + "Every admissible spelling of the entropy is generated at random; words are decided by the specification.")
prop("D03", models=[dict(module="SeedTree", cfg="SeedTreeMC.cfg"), dict(module="SeedTree", cfg="SeedTreeWalk.cfg", walks=("tree", 60, 25))],
     technique="TLA+ model of the spawn tree model-checked by TLC; its walks carried out on the library; recorded traces checked by TLC",
     note=SEEDN + "SeedTree.tla is checked exhaustively to depth 5; walks of length 24 are replayed; threads spawn concurrently and their calls must be a serial order.")

LAWS = dict(module="Laws", cfg="Laws.cfg", workers=8)
prop("J01", ["moves"], models=[LAWS], note=STREAM + "Laws.tla is model-checked: advance(d) lands where d draws lead and advances add up, for d up to 30 from states about to carry. "
     "On the library every transition of the abstract machine and distances at all scales (negative, beyond the period) from edge states are replayed.")
prop("J02", ["jumps"], models=[LAWS], note=STREAM + "Jump distances: polynomials derived from the recurrences (harness/jumppoly.py); ring engines compared at sampled window positions (all in the thorough run) and through additivity.")

prop("K01", note=STREAM + "Keys and counters at the edges in every admissible spelling, through constructors and seed(); a value that does not fit must be refused.")
prop("K02", note="Trace inclusion in KeyTrace.tla (Keys.tla: the sampler over the seed sequence's words). Whole batches are decided by the specification, also for user-supplied sequences "
     "with repetitions; for Weyl increments structure, distinctness, determinism and the words taken from the stream are.")

prop("C01", ["paths"], note=STREAM + "TLC's schedules create and use generators and interfaces wrapped around the objects (BitGen.tla: Wrap, Via) between in-place state assignments, seeding, advances and jumps; the trace specification knows only the object.")
prop("X01", ["bulk"], note=STREAM + "Requests of every kind, shape and output array; large requests are compared with single ones and with pieces on copies.")
prop("P01", ["toggle"], note=STREAM + "The accelerated paths are switched at arbitrary points of TLC's schedules; the specification does not know of them.")
prop("P02", ["all", "jumps", "moves"], variant="portable", note=STREAM + "The same specification decides a library built without vector or cryptography instructions and without 128-bit integers "
     "(SFMT, dSFMT, AES, SPECK, ChaCha, PCG64, Philox in their portable code): seeding, draws of every kind, block ends, advance, jumps, save and restore.")

prop("U01", note="Trace inclusion in UserTrace.tla: callbacks with scripted values and a log of the calls made (Python, ctypes and compiled callbacks; every subset of the optional ones; both word sizes), through every consumer.")

prop("E01", note=STREAM + "States.tla says which states and arguments must be refused; malformed ones are offered at every entry of every state and every argument, "
     "and after a refusal state, seed sequence and later draws must be those of before.")

LOCK = [dict(module="Lock", cfg="LockMC.cfg"), dict(module="Lock", cfg="LockMC2.cfg"), dict(module="Lock", cfg="LockOpen.cfg", fails=True)]
LOCKWALK = dict(module="Lock", cfg="LockWalk.cfg", walks=("lock", 60, 61))
LOCKTECH = "TLA+ model of the lock discipline model-checked by TLC; its walks carried out by real threads on the library; recorded traces and histories checked by TLC"
prop("L01", models=LOCK + [LOCKWALK], technique=LOCKTECH, note="Lock.tla (threads, calls, non-atomic draws, failures) is checked exhaustively for 2 and 3 threads, and without the lock must fail. "
     "Its walks decide the interleaving of real threads, one step at a time; every word must be drawn by the holder of the lock and handed to its caller (LockTrace.tla). "
     "Calls are nested at the lock's turns on every class (StreamTrace.tla), and free-running threads must have a serial order that respects time (ThreadTrace.tla).")
prop("L02", models=LOCK + [dict(module="Lock", cfg="LockLive.cfg"), LOCKWALK], technique=LOCKTECH, note="Lock.tla: with failures at every point the lock is held exactly while a thread is inside, and every call ends. "
     "Failing and succeeding calls of every kind on every class: the stream moves only while the lock is held, and afterwards another thread gets the lock (LockTrace.tla).")

MAT = "Trace inclusion in MatTrace.tla (fixed-point arithmetic): arguments, the variates found on the stream by a twin, and the result; "
MATASM = ["standard normal and chi-square variates are those of the installed NumPy's Generator on a copy of the bit generator", "reals are compared to about 10 bits"]
prop("X02", assumptions=MATASM, note=MAT + "the specification decides shape, refusal, the variates consumed and their order, and which parameters each element uses; "
     "argument spellings (lists, integer and single precision, Fortran, strided, negative strides, big-endian, unaligned, read-only) must not matter.")
prop("X03", assumptions=MATASM, note=MAT + "the linear map observed in a scalar call must factor the covariance (real and complex, singular, reduced rank) and explain every element; "
     "whether a matrix is valid is decided exactly from its principal minors.")

prop("F01", models=[dict(module="RdMC", cfg="RdMC.cfg", workers=8)], technique="TLA+ model of generators on a failing processor model-checked by TLC; the module compiled with a scripted processor; traces checked by TLC",
     assumptions=["the module is recompiled with a stand-in for the RDRAND instruction; the rest is /repo's source"],
     note="RdMC.tla: two generators, every pattern of failures of 7 instructions, both numbers of retries, all sequences of 5 calls. On the library failures at every kind of place of the buffer, "
     "of length around the number of retries, through every consumer; a call that returns must return exactly the words the processor delivered (RdTrace.tla).")

prop("S01", models=[dict(module="Entropy", cfg="EntropyMC.cfg")], technique="TLA+ model of requests on a failing entropy source model-checked by TLC; the module compiled with a scripted source; traces checked by TLC",
     assumptions=["the module's C part is recompiled with stand-ins for the system calls it makes; the rest is /repo's source"],
     note="Entropy.tla: every combination of failures and short reads over several requests. On the library every failure at every system call; a request that returns must return exactly the bytes "
     "the source delivered, or say that it fell back, and leave no descriptor open (EntTrace.tla). seed_by_array is decided by SplitMix64 in the specification.")
