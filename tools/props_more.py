VALUE = "Held on every operation sequence explored, compared after each step with an independent model; sanitizers watch all of it."

prop("P08", "Messages are values",
     "Copying, moving, assigning, comparing and mutating generated messages follows value semantics in every order: a copy equals its source and is independent of it (sub-messages included), a moved-to object has the source's value, self-assignment changes nothing, == is true exactly when all fields are equal and != is its negation, setters and property writes change their own field only, and fields of a fresh message read as the proto3 defaults.",
     ["histories", "inputs"], "every sequence of construction, copy, move, assignment and writes over any number of objects of any message type",
     "Aliasing between objects only shows in particular sequences over several objects; tests use one or two objects and fixed steps.",
     [GEN + "messagedefinitionprinter.cpp", GEN + "templates.cpp", "src/protobuf/qprotobuflazymessagepointer.h"], [("copy/move constructors and operators", GEN + "messagedefinitionprinter.cpp"), ("generated accessors", GEN + "templates.cpp"), ("lazy message pointer comparison", "src/protobuf/qprotobuflazymessagepointer.h")],
     "a pool of message objects", "generated accessors, operators, QMetaProperty",
     "model-based runtime monitor over random operation sequences under ASan/UBSan/LSan", VALUE)
prop("P09", "Change signals are emitted exactly for real changes, with the new value readable",
     "Whenever a setter, property write, assignment, move or deserialization changes a field, its change signal is emitted and a slot connected to it reads the new value; when a scalar, string, bytes, enum or list field is written with the value it already holds by a setter or property, no signal is emitted; fields that did not change do not signal in operations on other fields. Thus a listener that re-reads a field on each of its signals always agrees with the object.",
     ["histories", "inputs"], "every write operation on every field, with every old and new value",
     "Tests check a signal for a couple of field types; a missed signal in one operation or type leaves bound views stale only then.",
     [GEN + "messagedefinitionprinter.cpp", GEN + "templates.cpp", GEN + "messagedeclarationprinter.cpp"], [("setters and assignment operators", GEN + "templates.cpp"), ("NOTIFY signals", GEN + "messagedeclarationprinter.cpp")],
     "field values and mirrored values in a listener", "signals recorded by QMetaObject connections",
     "online trace monitor over recorded signals", "Lists and maps of messages are compared by element identity, so a signal for equal contents is allowed there; a missing one is not.")
prop("P10", "Sub-messages have exactly one owner and are destroyed exactly once",
     "In any sequence of handing sub-messages to a message, replacing or nulling them, copying, moving, deserializing and destroying messages, every sub-message is destroyed exactly once: by the message that owns it, or by the script engine or parent it belongs to. Nothing leaks, nothing is used after it was destroyed, and a message whose sub-message was destroyed by its other owner reads as having the default sub-message.",
     ["histories"], "every sequence of ownership operations on every message type with sub-messages",
     "Double frees and leaks stay silent in tests and depend on who destroys first.",
     ["src/protobuf/qprotobuflazymessagepointer.h", GEN + "templates.cpp"], [("lazy message pointer", "src/protobuf/qprotobuflazymessagepointer.h"), ("message property accessors", GEN + "templates.cpp")],
     "live objects and their destroyed() signals", "heap under ASan/LSan, destroyed() counters",
     "ASan/LSan plus live-object accounting over random ownership sequences", VALUE)
GRPC = "src/grpc/"
GH = "Held on every history explored, over the HTTP/2 and the native channel, against the server's own log; sanitizers watch all of it."

prop("P15", "Every call completes exactly once with the outcome the server gave",
     "A unary call made through a generated client, over the HTTP/2 or the native channel, asynchronously, with a callback, synchronously or from another thread, completes exactly once: with the message the server sent when the server answered OK, and otherwise with an error carrying the server's status code and message (any text the server sends, UTF-8 and percent-encoding included). It does not matter how the answer is cut into frames and TCP segments or how it is delayed. An answer without a valid status, with a truncated message or with a reset stream is never reported as success, an undecodable message is reported as error, and an aborted call reports Aborted once. Nothing of a completed call stays behind in the client, whatever receiver or context object lives on.",
     ["inputs", "schedules"], "every answer, way of calling, segmentation and number of concurrent calls",
     "Which bytes arrive together depends on the network; tests talk to one well-behaved server over loopback with small messages.",
     [GRPC + "qgrpchttp2channel.cpp", GRPC + "qgrpcchannel.cpp", GRPC + "qabstractgrpcclient.cpp", GRPC + "qabstractgrpcclient.h", GRPC + "qgrpccallreply.cpp"], [("HTTP/2 calls", GRPC + "qgrpchttp2channel.cpp"), ("native calls", GRPC + "qgrpcchannel.cpp"), ("client side of a call", GRPC + "qabstractgrpcclient.cpp")],
     "outcome of each call", "signals, callbacks and return values of the client; log of a scripted server",
     "offline checker comparing the recorded outcome of each call with what a scripted HTTP/2 server sent, under ASan/UBSan/LSan", GH)
prop("P16", "Server streams are delivered completely, in order, once",
     "The messages received from a server stream are exactly those the server sent, in order, each once, with their content, however they are cut into or joined in DATA frames and TCP segments (empty messages, several messages in one chunk, a length prefix split across chunks) and whatever other streams share the channel. Every receiver of a shared subscription sees the same messages and the object given for updates holds the current message when the notification arrives. The end of the stream is reported once after the last message: finished for OK, error with code and message otherwise. After abort nothing more is delivered.",
     ["inputs", "schedules"], "every message sequence, segmentation, end and number of concurrent streams",
     "Messages that straddle network chunks only occur with particular sizes and timing.",
     [GRPC + "qgrpchttp2channel.cpp", GRPC + "qgrpcchannel.cpp", GRPC + "qgrpcstream.h"], [("HTTP/2 streams", GRPC + "qgrpchttp2channel.cpp"), ("native streams", GRPC + "qgrpcchannel.cpp"), ("message hand-over", GRPC + "qgrpcstream.h")],
     "sequence of messages per stream", "messageReceived/finished/error signals; script of the server",
     "sequence conservation checker (lost, duplicated, reordered, changed) over recorded deliveries, under ASan/UBSan/LSan", GH)
prop("P17", "Subscriptions live and end as the client decides",
     "A subscription is established by one request; subscribing again with the same method and argument joins the stream in place, any other argument or method makes its own. A stream that fails is reported once and established again by itself with the same request until it works (also when the server comes up later); a stream the server ended with OK or the user aborted is not, even if the abort happens while waiting to be established again. Abort, destroying the client and attaching another channel end the streams concerned and only those, cancel them at the server, and allow to subscribe anew. Slots may call back into the client (subscribe, abort, call) without disturbing delivery. Without a channel every operation reports an error. Every failure is signalled once by the client too.",
     ["histories", "schedules"], "every history of subscribe, fail, end, abort, replace and destroy, at every moment",
     "The interesting moments (abort inside a slot, during the retry pause, with several streams active) are not in the tests and depend on timing.",
     [GRPC + "qabstractgrpcclient.cpp", GRPC + "qgrpcstream.cpp", GRPC + "qgrpcstream.h", GRPC + "qgrpchttp2channel.cpp", GRPC + "qgrpcchannel.cpp"], [("stream bookkeeping and retry", GRPC + "qabstractgrpcclient.cpp"), ("abort", GRPC + "qgrpcstream.cpp")],
     "state of each subscription", "signals of streams and clients; requests and cancellations logged by the server",
     "trace monitors of scripted histories (what has to and what must not happen) under ASan/UBSan/LSan", GH + " A closed TCP connection is only exercised on the native channel: Qt 5.15 does not report it to HTTP/2 replies in progress.")
prop("P18", "Clients, channels, replies and streams can go away in any order",
     "Clients, channels, replies and streams may be released and destroyed in any order and at any moment while calls and streams are in progress: nothing is used after it was destroyed, handles that are still held can be read, aborted and released, nothing is reported twice, operations whose client and channel still exist complete with their own result, and when client, channel and handles are gone no reply or stream object is left.",
     ["histories", "schedules"], "every order of destruction relative to calls in progress",
     "A use after free needs one particular order of destruction and usually passes unnoticed in tests.",
     [GRPC + "qabstractgrpcclient.cpp", GRPC + "qgrpcchannel.cpp", GRPC + "qgrpchttp2channel.cpp", GRPC + "qgrpcasyncoperationbase_p.h"], [("ownership of operations", GRPC + "qabstractgrpcclient.cpp"), ("threads of native calls", GRPC + "qgrpcchannel.cpp"), ("network replies", GRPC + "qgrpchttp2channel.cpp")],
     "live objects", "ASan/LSan, QPointer accounting of replies and streams",
     "ASan/LSan plus live-object accounting over random creation and destruction sequences", GH)
prop("P19", "Every call sends exactly one well-formed request with exactly its argument",
     "For each call or subscription exactly one request reaches the server: a POST to /<package.Service>/<method> with gRPC content type, 'te: trailers' and the credentials of the channel as headers, whose body is one uncompressed length-prefixed message equal to the argument. Nothing else is sent, nothing is lost, the channel offers no message encoding it cannot read, and requests issued one after the other arrive in that order.",
     ["inputs", "histories"], "every argument, service, method, way of calling and credential",
     "A lost or malformed request shows for particular sizes and ways of calling only; the tests look at answers, not at requests.",
     [GRPC + "qgrpchttp2channel.cpp", GRPC + "qgrpcchannel.cpp", GRPC + "qgrpcuserpasswordcredentials.h", GEN + "clientdefinitionprinter.cpp"], [("request construction", GRPC + "qgrpchttp2channel.cpp"), ("generated client methods", GEN + "clientdefinitionprinter.cpp")],
     "requests received by the server", "log of a scripted server",
     "offline checker matching the server's request log one-to-one with the issued calls", GH)

QT = "src/qttypes/"
prop("P12", "Fields of Qt types keep their values and travel in their published form",
     "A message field of a Qt type (QUrl, QChar, QUuid, QTime, QDate, QDateTime, QSize(F), QPoint(F), QRect(F), QPolygon(F), QColor, QMatrix4x4, QVector2D/3D/4D, QTransform, QQuaternion, QImage) behaves like any other field: its setter, change signal, copies and comparison follow the value; serialized, it is read by any protobuf implementation as the message published in QtCore.proto/QtGui.proto with each component in its place; deserialized, it is again equal to the original, and values written by other implementations are read correctly. Neighbouring fields are not disturbed.",
     ["inputs"], "every value of every supported Qt type, in local time with milliseconds for date-times and with 8 bit colours",
     "Swapped, truncated or mis-signed components show for particular values only; tests use one constant per type and only ever read their own output.",
     [QT + "qtprotobufqttypes.cpp", QT + "QtProtobuf/QtCore.proto", QT + "QtProtobuf/QtGui.proto", GEN + "generatorcommon.cpp"], [("conversion functions and handlers", QT + "qtprotobufqttypes.cpp"), ("choice of Qt types", GEN + "generatorcommon.cpp")],
     "values of fields of Qt types", "generated accessors and serialized bytes",
     "differential runtime monitor against google::protobuf over random values, under ASan/UBSan/LSan", REF)
prop("P13", "The well-known types carry every value, and Timestamp agrees with QDateTime",
     "Any, Api, Duration, Empty, FieldMask, SourceContext, Struct, Timestamp, Type and the wrappers (with the messages they consist of) read every value google's implementation writes and write it back with the same contents. A QDateTime of any time specification and millisecond value converted to Timestamp and back is the same instant; the Timestamp other implementations see is that instant too.",
     ["inputs"], "every value of the well-known messages, every instant from year 1 to 9999",
     "Tests check property names and one current time, never a value written by another implementation.",
     ["src/wellknowntypes/CMakeLists.txt", GEN + "messagedefinitionprinter.cpp"], [("generated library of well-known types", "src/wellknowntypes/CMakeLists.txt"), ("conversion of Timestamp", GEN + "messagedefinitionprinter.cpp")],
     "message contents", "serialized bytes, conversions",
     "differential runtime monitor against google::protobuf over random values, under ASan/UBSan/LSan",
     REF + " Recorded findings: nanoseconds of Timestamp are counted as microseconds (demanded by a test of the repository), oneof of Value is not implemented.")

prop("P11", "Messages and serializers can be used by many threads at once",
     "Once the types are registered, any number of threads may create, copy, move, serialize, deserialize and destroy messages of their own at the same time, each with its own serializer or with one they share, even when they are the first to do so, when their messages were copied from one original, when some receive malformed data, and while handlers of further types are registered. There is no data race and every thread gets the result it would get alone.",
     ["schedules", "inputs"], "every interleaving of any number of threads over every message type",
     "Races need particular interleavings, first use happens once per process, and unit tests are single threaded.",
     ["src/protobuf/qabstractprotobufserializer.cpp", SER, "src/protobuf/qtprotobuf.cpp"], [("registry of handlers and its locks", "src/protobuf/qabstractprotobufserializer.cpp"), ("one-time set up of the handlers of basic types", SER)],
     "registry of handlers, table of basic types", "results of serialize()/deserialize() per thread, memory accesses",
     "ThreadSanitizer with annotated Qt locks, plus comparison of every thread's results with those of a single thread", "Held in every schedule explored; ThreadSanitizer judges happens-before on the executions seen, the inside of Qt is not instrumented.")

prop("P14", "For every supported schema and option the generator produces working code",
     "For every proto3 schema made of packages, imports, nested messages and enums, scalar, enum and message fields, lists, maps, any field number, any order of declaration, comments and services, and for every combination of generator options (single or multiple files, QML, FOLDER, FIELDENUM, COMMENTS, EXTRA_NAMESPACE), the generator succeeds; the code it writes compiles and its classes have the promised shape: one readable, writable, notified property, getter and setter per field, registered types, enum constants with the declared names and values, field number constants, comments carried over. Messages generated this way behave like any other: they round-trip, agree with google::protobuf, skip unknown fields, are values and notify. What is written depends on schema and options alone: repeated runs and another order of the files give identical output. Schemas of another syntax (proto2) are refused.",
     ["programs", "inputs"], "every schema in the supported subset, every option set, every value",
     "Tests compile a few dozen fixed schemas; the generator's input is unbounded and mistakes show for particular combinations of nesting, names, types and options.",
     [GEN + "messagedeclarationprinter.cpp", GEN + "messagedefinitionprinter.cpp", GEN + "generatorcommon.cpp", GEN + "generatorbase.cpp", GEN + "singlefilegenerator.cpp", GEN + "multifilegenerator.cpp", GEN + "enumdeclarationprinter.cpp"],
     [("declarations", GEN + "messagedeclarationprinter.cpp"), ("definitions", GEN + "messagedefinitionprinter.cpp"), ("type names and scopes", GEN + "generatorcommon.cpp"), ("includes", GEN + "generatorbase.cpp")],
     "generated files and the behaviour of the generated classes", "output of the plugin, compiler, meta-object system, wire and value monitors",
     "random schemas run through the sanitized generator; output compared, compiled, and executed under the wire and value monitors with ASan/UBSan/LSan", "Held on every schema generated; limits of the generator are kept out of the schemas and listed in DESIGN.md.")
prop("P20", "QML and script see and set the same values as C++",
     "Messages and enums generated with the QML option can be imported and declared in QML with the values written down. For every 32 bit integer, bool, string, float, double, enum and message field and lists of them, script reads the value C++ holds and what script writes is what C++ reads and serializes, at any nesting. Bindings to fields, through sub-messages too, follow every change made by script, C++ setters, assignment or deserialization. Lists of messages show their length and elements, and can be appended to, replaced, shortened, cleared and assigned; what script put into them lives exactly as long as it is in the list, whatever the garbage collector does. Ordinary numbers convert to the protobuf integer types and back without change, also when written to properties of any integer field.",
     ["histories", "inputs"], "every sequence of script, C++ and wire operations on every message type, with collections at any moment",
     "Ownership between the garbage collector and messages and stale bindings show only in particular sequences; tests assign a few scalars once.",
     ["src/protobuf/qqmllistpropertyconstructor.h", "src/protobuf/qtprotobuf.cpp", "src/protobuf/qtprotobuftypes.h", GEN + "templates.cpp", "src/protobuf/quick/qtprotobufquickplugin.cpp"],
     [("QML list functions", "src/protobuf/qqmllistpropertyconstructor.h"), ("converters", "src/protobuf/qtprotobuf.cpp"), ("script properties and accessors", GEN + "templates.cpp")],
     "messages, QML objects and bindings", "QML engine, QMetaProperty, generated accessors",
     "model-based runtime monitor driving a real QML engine, under ASan/UBSan/LSan", "Held on every history explored. Contents of lists changed in place by script are not notified by the library and not claimed to be; an object may be in one list only.")
prop("P21", "gRPC calls and streams made from QML report every outcome once and clean up",
     "A call made by script through a client generated with the QML option leads to exactly one outcome, whatever the server answers: the result callback is called once with the response (or the given result object gets exactly the response), or the error callback is called once with the status code and message of the server; a call without a channel reports an error, a missing error callback is harmless. Results belong to script and are collected when script drops them, and nothing of a completed call stays behind in the client. A GrpcStream element hands over every message of the server once and in order, as argument of messageReceived and in returnValue; it is disabled when the server ends the stream; it reports the status of a failed stream and is established again; setting enabled to false cancels the stream, setting it to true again starts it anew; changing client, method or argument cancels the running stream and starts the new one; unknown methods, wrong arguments and missing channels are refused with an error and disable the element. Engines, clients, elements, arguments and result objects may be destroyed at any moment, also while calls and streams are in flight: nothing is used after it is gone and nothing is delivered to what is gone.",
     ["histories", "schedules", "inputs"], "every answer of the server, every order of script, network and destruction events",
     "Tests make a handful of calls on one long-lived client and engine; leaks, use after destruction and restarts show only in particular sequences and timings.",
     ["src/grpc/quick/qquickgrpcstream.cpp", "src/grpc/quick/qquickgrpcstream_p.h", GEN + "templates.cpp", "src/grpc/qgrpccallreply.cpp", "src/grpc/qgrpcstream.cpp"],
     [("stream element", "src/grpc/quick/qquickgrpcstream.cpp"), ("calls generated for QML", GEN + "templates.cpp")],
     "calls, stream elements, replies, results", "script callbacks, signals of the element, requests and cancellations seen by the server",
     "trace monitor over script callbacks and the log of a scripted HTTP/2 server, with objects destroyed in flight, under ASan/UBSan/LSan", "Held on every history explored. Two elements with the same client, method and equal argument share one stream, which is not judged.")
prop("P22", "JSON serialization agrees with the protobuf JSON mapping",
     "QProtobufJsonSerializer writes messages as JSON that other implementations of the proto3 JSON mapping read as the same value, and reads back what it wrote.",
     ["inputs"], "every message type and value",
     "Tests compare a few fixed strings.",
     ["src/protobuf/qprotobufjsonserializer.cpp"], [("JSON serializer", "src/protobuf/qprotobufjsonserializer.cpp")],
     "JSON text", "serialize() and deserialize() of QProtobufJsonSerializer",
     "none here", "Not claimed.")
prop("P23", "Serializer plugins are found, offered and refused exactly as they declare",
     "Loading a serializer plugin by the name of its library in the plugin folder returns the name its metadata declares; from then on its version, protobuf version, rating and list of serializers are the declared ones, and each declared serializer is handed out under the name of the plugin, always the same object, and is the one that writes and reads messages given it. Loading again, or another library that declares a name already taken (that of the built-in serializers included), changes nothing. A missing, broken or foreign file yields no serializer and leaves the other plugins and the built-in serializer as they were. Asking for an unknown plugin or serializer raises an exception, metadata of unknown plugins is empty. No history of these calls crashes or leaks.",
     ["histories", "inputs"], "every order of loading and asking, every set of good and bad files in the folder",
     "The registry is filled once per process and the tests load one well-behaved plugin; mistakes show for unknown names, failed loads and repeated loads in particular orders.",
     ["src/protobuf/qprotobufserializerregistry.cpp", "src/protobuf/qprotobufserializerregistry_p.h", "src/protobuf/qprotobufserializationplugininterface.h"],
     [("registry of plugins", "src/protobuf/qprotobufserializerregistry.cpp")],
     "registry of plugins and serializers", "loadPlugin(), getSerializer(), pluginVersion() and its likes, bytes written by the serializers",
     "model-based runtime monitor over random histories, one process each, with plugins built for it, under ASan/UBSan/LSan", "Held on every history explored. The built-in JSON serializer is left out (see P22).")
prop("P24", "A secure channel talks only, and only encrypted, to servers it was told to trust",
     "A channel made with TLS settings (https address and SSL configuration for the HTTP/2 channel, SSL credentials for the native one) sends a call or subscription, its argument and its credentials only through TLS and only to a server whose certificate is valid for the address and the time and leads to an authority of the settings of that very channel. With any other server (other or unknown authority, self-signed, expired or not yet valid certificate, certificate of another host, no TLS at all) every call ends with an error, exactly once, every stream reports an error, and the request never reaches the server. The client certificate of the settings, and no other, is presented. With a server that is trusted calls and streams have the outcome the server gave. Channels with different settings in one process do not influence each other. An https address without TLS settings is refused. Turning verification off in the settings works for servers of the right host name.",
     ["inputs", "configurations", "fault_sequences"], "every combination of server certificate and channel settings, any number of channels at once",
     "The tests have one server certificate, one good and one bad setting; that a request leaks to an impostor, or that one channel uses the trust of another, shows only with servers that are wrong in one respect and a look at what arrived there.",
     ["src/grpc/qgrpchttp2channel.cpp", "src/grpc/qgrpcchannel.cpp", "src/grpc/qgrpcsslcredentials.h", "src/grpc/qgrpccredentials.h"],
     [("TLS settings of the HTTP/2 channel", "src/grpc/qgrpchttp2channel.cpp"), ("credentials of the native channel", "src/grpc/qgrpcchannel.cpp")],
     "channel settings", "connections and handshakes of the TLS front, log of the server behind it, outcome of each call and stream",
     "runtime monitor: real channels against TLS servers with certificates made for the run, trace of handshakes, raw connection starts and requests checked against what the certificates allow, under ASan/UBSan/LSan", "Held on every combination explored. The TLS implementations of Qt and gRPC themselves are trusted.")
NOT_APPLICABLE = [dict(property="P22", reason="The JSON parser the serializer is built on (git submodule src/protobuf/3rdparty/microjson) is empty in this sandbox and the sandbox build leaves src/protobuf/qprotobufjsonserializer.cpp out, so there is no execution of it to monitor.")]
