B = "Decided for all values of the symbolic inputs within the bounds listed per harness in the evidence; trusted: the symbolic executor, its models of the runtime and the SMT solver. "
FS = B + "The file system and memory mapping are a harness model (a file is its bytes, mapping shares them)."
META = FS + " The log metadata store is a stand-in which keeps what it is given; the condition parser is replaced by the expression it would give."
CLAIMED = {
 "C01": FS, "C02": FS, "C03": FS, "C04": FS, "C05": META, "C06": META, "C07": META,
 "C08": B + "The condition parser is replaced by the expression it would give.",
 "C09": B, "C16": B, "C19": B + "Interleavings at synchronisation points; the wall clock and random source are arbitrary.",
 "C12": B, "C14": B + "Interleavings at synchronisation points; the result of creating a value is arbitrary.",
 "C15": B + "Native replay of the same history decides what is reported.", "C17": B, "C18": B,
 "C22": B + "Interleavings at synchronisation points; time passes only when nothing can run or at the points of a schedule.",
 "C23": B + "Interleavings at synchronisation points of the code and the in-memory store; time passes only when nothing can run.",
 "C24": B + "Interleavings at synchronisation points; time passes only when nothing can run or at the points of a schedule.",
 "C25": B + "Interleavings at synchronisation points.",
 "C26": FS + " The remote storage and the archive format are stand-ins; failures of every call are explored.",
 "C28": B + "The encoding of the status in bytes (protobuf, JSON) is a model.",
 "C29": B + "Interleavings at synchronisation points.",
 "C10": B + "The parser is replaced by the expression it would give; path.Match and strings are executed as they are.",
 "C11": B + "The parser is replaced by the expression it would give; the text produced is given its meaning by a small reader of SQL in the harness.",
 "C13": B + "The log storage is a stand-in which answers queries of each log as C06 says, or fails.",
 "C20": B + "The embedded database itself is executed (in memory); JSON is a model; the condition parser is replaced by the expression it would give.",
 "C21": B + "The storage behind the cache is a stand-in; failures of its writes before and after they have taken effect are explored.",
 "C30": FS + " The archive format is a stand-in (entries with a checksum), the native replay uses the real one.",
 "C31": B + "The HTTP framework's context and binding and the service client are stand-ins.",
 "C34": B + "Interleavings at synchronisation points; time passes only when nothing can run or at the points of a schedule.",
 "C35": FS + " Crash points are between the statements of the storage code; death of the process, not loss of power.",
 "C36": B + "The random source is arbitrary.",
 "C37": B + "The Redis server is a model of its commands behind the client library (natively one which speaks its protocol), protobuf is a model; interleavings at synchronisation points.",
 "C38": B + "The S3 server is a model of its requests behind the client library, the cleaning of paths by the library included (natively a server behind the HTTP transport of the real library).",
 "C27": FS + " Failures of the system calls are symbolic.",
}
NA = {
 "C32": "the code is driven by reflect over arbitrary user types and by YAML, JSON and environment decoders; reflect values have no encoding in the symbolic executor, so the real code cannot be executed symbolically",
 "C33": "every format is a regular expression run by package regexp over the text and a layout interpreted by time.Parse; with symbolic texts of the length of a date (10 bytes and more, about 60 formats) the executions are out of reach, and concrete texts would be testing",
}
