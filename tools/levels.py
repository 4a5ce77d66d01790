T = "explicit TLA+ specification: TLC model checking, specification behaviours replayed into the code, recorded traces validated by TLC"
S = "explicit TLA+ specification: TLC model checking; real code under a deterministic scheduler, recorded histories validated by TLC as behaviours of the specification"
LEVELS = {
 "P01": (T, "model_checking", "Specification checked exhaustively for small bounds; all its behaviours up to the bound are executed on both persisters; random long histories are validated as behaviours of the specification. Trusts the harness' projection of results and TLC."),
 "P02": (T, "model_checking", "Every byte prefix of every write of the explored histories is opened by the real code and judged by the specification; every sequence of up to 3 abstract log lines is loaded. Assumes a crash leaves a byte prefix of the write in flight."),
 "P15": (S, "model_checking", "Specification (safety and liveness) checked exhaustively for small bounds. The real code runs under a deterministic scheduler which owns every mutex, condition variable, clock reading and memory access; thousands of random programs and schedules, each recorded history validated as a behaviour of the specification; deadlocks, livelocks and use-after-free reported directly. Schedules are sampled, not exhausted; sequentially consistent memory."),
 "P16": (S, "model_checking", "As P15: specification checked exhaustively (safety, termination), real handles run under the deterministic scheduler, histories validated by TLC."),
 "P13": (S, "model_checking", "As P15, for the blocking and the dropping queue with 1 to 3 slots; specification checked exhaustively (order, nothing lost, termination)."),
 "P14": (S, "model_checking", "As P15; the model covers equal timestamps, publishing behind the head and destruction with messages for the future."),
 "P03": (S, "model_checking", "As P15, over streams in memory and in a file: publishers, head updates, subscribers (checked, raw, filtered by type; from an index, from a timestamp), scopes and the stream going away. Model: exact ranges, nothing after the end, every subscription catches up and ends."),
 "P04": (S, "model_checking", "As P15, for borrowed publishers, BecomeFollowingStream, BecomeMasterStream in any interleaving with publishing. Model: one owner at a time, every request for the authority completes once the borrowers give up."),
 "P23": (S, "model_checking", "As P15; the environment moves the wall clock to arbitrary values in both directions."),
 "P07": (T, "model_checking", "Specification of a storage, its containers and its journal checked exhaustively for small bounds; one history per transition of the specification is executed on the real storage (every container kind), plus thousands of random longer ones; every view and every journal entry validated by TLC as a behaviour of the specification."),
 "P08": (T, "model_checking", "As P07, with up to 4 mutations over 3x2 keys, all accessors of the container compared after every mutation."),
 "P09": (T, "model_checking", "As P07; after transactions another storage is built from the journal, or from a prefix of it, or the file is opened again, and its contents judged by the specification."),
 "P10": (S, "model_checking", "As P15, for a storage whose transactions run in several threads, with shutdown and the lock held by others in between."),
 "P11": (S, "model_checking", "As P15, for a storage which follows its stream while entries are fed, read transactions run, and it becomes the master."),
 "P17": (T, "model_checking", "Specification of the request grammar and of the two-way cut invariance checked by TLC; requests cut in two at the places the specification generates and thousands of random requests (valid, mutated, garbage) cut into random pieces go through the real server over a virtual network; what the handler saw judged by TLC. What the specification calls unspecified (7+ digit chunk sizes and the like) is judged weakly."),
 "P18": (S, "model_checking", "Specification of registration, scopes and lookup checked exhaustively for small sets of paths; random programs of registering threads and clients run under the deterministic scheduler and a virtual network; their histories validated by TLC."),
 "P19": (T, "model_checking", "Specification of a response and its transfer checked exhaustively for small bodies; all ways of answering (whole, chunks, files, errors) with random and boundary sizes, random cuts and broken connections run through the real server and client over a virtual network, judged by TLC."),
 "P12": (T, "model_checking", "Specification of what every request is answered with and does to the storage, for all three REST flavours, checked exhaustively for small bounds (errors, reads and requests to a storage which follows change nothing; only what is addressed changes; the views agree, the pages of the hypermedia one cover everything); one history of requests per transition of the specification (a sample in the quick tier) and random longer ones, over every kind of container, form of a key and header, go through the real server and storage over a virtual network; every response, journal entry and the contents afterwards are judged by TLC."),
    "P21": (T, "model_checking", "Specification of flows (what waits on every edge, by time, up to the head; blocks which take over by type; joining), checked exhaustively for small flows with liveness; random programs over twelve flows composed of | and +, with sources used by several threads, blocks that emit, post, schedule and move the head from f(), constructors and destructors, run under random schedules with preemption at every memory access; every run is judged by TLC against the specification of that very flow."),
 "P05": (S, "model_checking", "Specification of the service, the connection, the follower and services which lie checked exhaustively for small bounds (always a prefix; catches up under fairness); its histories are executed with the connection broken and lies told at every step, and random concurrent histories with connections cut at random bytes run under the deterministic scheduler; all judged by TLC."),
 "P06": (S, "model_checking", "Specification of streams which follow one another and give way to one another, checked exhaustively for small bounds (at most one master, nothing accepted is lost, a refused take-over changes nothing, also when connections break); its histories, asks at the limits of the restrictions, and random concurrent take-overs racing with publishers under the deterministic scheduler, with connections cut at random bytes, are judged by TLC."),
 "P20": (S, "model_checking", "Specification of a subscription's response for all parameters checked exhaustively for small streams; every combination of parameters it generates is requested in the histories it generates, random concurrent ones run under the deterministic scheduler; every response is judged by TLC."),
 "P24": (T, "model_checking", "Specification checked exhaustively; every way of cutting every short input executed on the real code, random long ones in addition, all judged by TLC."),
}
REASONS = {}
