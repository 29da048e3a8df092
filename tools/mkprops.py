#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here, one call per property)."""
import json, os
OUT = []
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=False):
    assert len(title) <= 80, (id, len(title))
    OUT.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state], "observe_at": list(observe), "hook_needed": None}})

P("D01", "Devices give back every operating system handle exactly once",
  "Over the life of a file, shared file, serial port or socket device, every descriptor and stream that any of its operations obtained is closed exactly once by the time the device object is gone. This holds for every sequence of opening, using, re-opening, closing and destroying the device and for every choice of system calls that fail on the way, and no system call is ever issued on a handle that was not opened or has been closed.",
  ["histories", "fault_sequences", "configurations"], "every sequence of public calls on each device, every subset of failing system calls, with exceptions enabled and disabled",
  "The device tests are few, run on real files only, and never make an individual system call fail; a leak on an error return is invisible to them. The serial and socket devices have no automated test at all.",
  ["ecl_devices/src/lib/ofile_pos.cpp", "ecl_devices/src/lib/serial_pos.cpp", "ecl_devices/src/lib/shared_file.cpp", "ecl_devices/src/lib/socket_client_pos.cpp", "ecl_devices/src/lib/socket_server_pos.cpp"],
  [("OFile::open/close", "ecl_devices/src/lib/ofile_pos.cpp"), ("Serial::open/close", "ecl_devices/src/lib/serial_pos.cpp"), ("SocketClient::open/close", "ecl_devices/src/lib/socket_client_pos.cpp"), ("SocketServer::open/listen/close", "ecl_devices/src/lib/socket_server_pos.cpp"), ("SharedFileManager", "ecl_devices/src/lib/shared_file.cpp")],
  [("file_descriptor / file / socket_fd / client_socket_fd", "the owned handle", "ecl_devices/include/ecl/devices/*_pos.hpp"), ("is_open", "whether the handle is owned", "ecl_devices/include/ecl/devices/*_pos.hpp")],
  ["open/close/fdopen/fclose/socket/accept/bind/connect system calls"])
P("D02", "A device never reports success for an operation that failed",
  "Whenever an operation of a file, shared file, serial port or socket device reports success, every system call it rested on succeeded; otherwise it throws (exceptions enabled) or reports failure through its return value. After every operation the device's open state says whether the device is usable, and after every operation that returned, the error it reports agrees with that operation's outcome. Best-effort steps (socket reuse option, discarding pending serial input, closing a previously opened port) do not count as failures.",
  ["histories", "fault_sequences", "configurations"], "every sequence of public calls, every failing system call, both error-handling configurations",
  "Nothing in the test suite injects a failing system call, so error returns, the open flag after a failure and the stored error are never looked at.",
  ["ecl_devices/src/lib/ofile_pos.cpp", "ecl_devices/src/lib/serial_pos.cpp", "ecl_devices/src/lib/shared_file.cpp", "ecl_devices/src/lib/socket_client_pos.cpp", "ecl_devices/src/lib/socket_server_pos.cpp"],
  [("open(), close(), read(), write(), flush(), listen()", "ecl_devices/src/lib"), ("error()", "ecl_devices/include/ecl/devices")],
  [("error_handler", "last error", "ecl_devices/include/ecl/devices"), ("is_open", "open state", "ecl_devices/include/ecl/devices")],
  ["return values, exceptions, open(), error()"])
P("D03", "System errors translate to the same meaning whichever way they are reported",
  "For every system error number, the error a file, serial port or socket operation reports when exceptions are disabled is the same one it carries in the exception it throws when they are enabled. The error number translated is always the one set by the system call that failed, never one left over from an earlier call.",
  ["inputs", "configurations"], "every error number and every translation routine",
  "A test run sees whichever error number its environment produces, in one build configuration; the tables differ only in entries no test triggers.",
  ["ecl_devices/src/lib/detail/error_handler.cpp", "ecl_devices/src/lib/detail/exception_handler_pos.cpp", "ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp", "ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp"],
  [("open_error/write_error/... and open_exception/write_exception/...", "ecl_devices/src/lib/detail")], [], ["error() and StandardException::flag()"])
P("D04", "Shared files of one name share one file, released with the last user",
  "All shared-file handles opened on the same name write to one underlying file, which stays open while any handle is alive and is flushed and closed when the last one is closed or destroyed. The registry behind them is only ever touched under its lock, and the lock is free again after every operation, whether it succeeds, fails or throws.",
  ["histories", "schedules", "fault_sequences"], "every sequence of creating, writing, flushing and destroying handles over several names, with failing system calls",
  "The shared-file test opens two handles once on a good path; registry counts, failure paths and lock state are not observable to it.",
  ["ecl_devices/src/lib/shared_file.cpp", "ecl_devices/include/ecl/devices/shared_file.hpp"],
  [("SharedFileManager::RegisterSharedFile / DeRegisterSharedFile", "ecl_devices/src/lib/shared_file.cpp")],
  [("opened_files", "registry", "ecl_devices/src/lib/shared_file.cpp"), ("mutex", "registry lock", "ecl_devices/src/lib/shared_file.cpp")], ["lock state and open streams"])
P("D05", "In-memory devices never read or write outside their buffers",
  "Character buffers, string devices and console devices keep every read and write inside memory they own, for every sequence of writes, reads, clears, copies and destructions and for every length the caller passes. What is read back is what was written, in order, with nothing invented past the end.",
  ["histories", "inputs"], "every sequence of public calls and all lengths",
  "Tests write a handful of short strings; growth and clear/write interleavings at capacity boundaries are not reached, and an overrun usually goes unnoticed.",
  ["ecl_devices/src/lib/string.cpp", "ecl_devices/include/ecl/devices/string.hpp", "ecl_devices/src/lib/detail/character_buffer.cpp", "ecl_devices/include/ecl/devices/console.hpp", "ecl_devices/src/lib/console.cpp"],
  [("String::write/grow/clear", "ecl_devices/src/lib/string.cpp"), ("CharBuffer", "ecl_devices/src/lib/detail/character_buffer.cpp")],
  [("buffer_length", "capacity", "ecl_devices/include/ecl/devices/string.hpp")], ["memory accesses"])
P("I01", "Interprocess objects own their kernel resources and tell the truth",
  "A semaphore or shared-memory object that was constructed successfully owns its kernel object and mapping, and releases each exactly once; the name of a shared memory is removed only by the object that created it. A wait, post, open or mapping call that fails is reported with its reason, never taken for success, and a failed construction leaves nothing behind. Newly created shared memory starts with the default value of its storage, and memory that exists already is left as it is.",
  ["histories", "fault_sequences", "configurations"], "every sequence of public calls and every failing system call",
  "There is no test of failing shm_open/ftruncate/mmap/sem_open, nor of several owners of one name.",
  ["ecl_ipc/src/lib/semaphore_pos.cpp", "ecl_ipc/src/lib/shared_memory_pos.cpp", "ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp", "ecl_ipc/include/ecl/ipc/semaphore_pos.hpp"],
  [("Semaphore", "ecl_ipc/src/lib/semaphore_pos.cpp"), ("SharedMemory", "ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp"), ("SharedMemoryManager", "ecl_ipc/src/lib/shared_memory_pos.cpp")], [], ["shm_*/mmap/sem_* calls, return values, exceptions"])
P("T01", "A mutex reports whether the caller holds it, and locking is balanced",
  "A lock or try-lock that reports success leaves the caller holding the mutex and one that reports failure does not; unlocking gives it up exactly once; and the lock count a mutex publishes equals the number of locks held on it. A mutex is initialised once, destroyed once, and any attribute objects made on the way are released, whichever call fails; a failed initialisation is reported in debug builds with exceptions, and locking twice from one thread is reported in debug builds.",
  ["histories", "fault_sequences", "configurations"], "every sequence of lock, trylock, timed trylock and unlock with every outcome of the pthread calls",
  "The mutex test locks and unlocks a few times on the success path; failure and timeout returns and the count after them are not exercised.",
  ["ecl_threads/include/ecl/threads/mutex_pos.hpp", "ecl_threads/src/lib/mutex_pos.cpp"],
  [("Mutex::lock/trylock/unlock", "ecl_threads/src/lib/mutex_pos.cpp")], [("number_locks", "published lock count", "ecl_threads/include/ecl/threads/mutex_pos.hpp")], ["return values, locks()"])
P("T02", "A thread runs its function once and its task object lives exactly that long",
  "A started thread executes the function it was given exactly once, on a callable that stays valid until the function returns and is then released exactly once, no matter whether the thread object is joined, cancelled or destroyed meanwhile. Starting that fails is reported, releases everything that was allocated, and leaves the thread startable; a thread that has been started is not started again. isRunning() is false before a start, after a failed start and after a join, and true while a started thread that nobody cancelled has yet to finish. A thread gets the stack size asked for. A priority that cannot be had is reported by the call that asks for it, and never ends the thread that was started with it.",
  ["schedules", "histories", "fault_sequences", "configurations"], "every order of start, join, cancel, destruction and thread body execution, with every failing pthread call",
  "Thread tests run one happy schedule each; a callable freed too early or twice normally still appears to work, and pthread_create never fails in tests.",
  ["ecl_threads/include/ecl/threads/thread_pos.hpp", "ecl_threads/src/lib/thread_pos.cpp", "ecl_threads/include/ecl/threads/threadable.hpp"],
  [("Thread::start/join/cancel", "ecl_threads/include/ecl/threads/thread_pos.hpp"), ("ThreadTask::EntryPoint", "ecl_threads/include/ecl/threads/thread_pos.hpp"), ("Threadable", "ecl_threads/include/ecl/threads/threadable.hpp")],
  [("thread_task", "owned callable", "ecl_threads/include/ecl/threads/thread_pos.hpp"), ("has_started", "start state", "ecl_threads/include/ecl/threads/thread_pos.hpp")], ["callable invocations, allocations, return values"])
P("S01", "Signals reach exactly the connected slots, and nothing dangles",
  "Emitting a signal runs the function of every slot connected to it, by object or by topic, once per connection, and of no slot that was disconnected or destroyed. Signals, slots and topics can be connected, disconnected and destroyed in any order without leaving a reference to a destroyed party, and every shared connection object is freed exactly once.",
  ["histories"], "every order of connect, emit, disconnect and destruction over signals, slots and topics",
  "The sigslot tests connect and emit in one fixed order with all parties alive to the end.",
  ["ecl_sigslots/include/ecl/sigslots/sigslot.hpp", "ecl_sigslots/include/ecl/sigslots/signal.hpp", "ecl_sigslots/include/ecl/sigslots/slot.hpp", "ecl_sigslots/include/ecl/sigslots/topic.hpp", "ecl_sigslots/include/ecl/sigslots/manager.hpp"],
  [("SigSlot::emit/process/connect/disconnect", "ecl_sigslots/include/ecl/sigslots/sigslot.hpp"), ("SigSlotsManager", "ecl_sigslots/include/ecl/sigslots/manager.hpp")],
  [("subscribers/publishers", "who is connected", "ecl_sigslots/include/ecl/sigslots/sigslot.hpp")], ["slot function invocations, allocations"])
P("C01", "Containers never touch memory outside their elements",
  "Arrays, stencils, FIFOs and circular push-and-pop buffers read and write only elements they own or view: an access that checks its position throws for every position outside the container and for no position inside it, and every internally computed position, copy or fill stays within the storage. This holds for every size, including empty and resized containers.",
  ["histories", "inputs", "configurations"], "all sizes, positions and sequences of container operations, with and without debug memory checks",
  "Container tests use one small size each and never index at or beyond the boundary of a stencil, an empty container or a resized buffer.",
  ["ecl_containers/include/ecl/containers"],
  [("Array::at/operator[]", "ecl_containers/include/ecl/containers/array"), ("Stencil::at", "ecl_containers/include/ecl/containers/stencil"), ("FiFo", "ecl_containers/include/ecl/containers/fifo.hpp"), ("PushAndPop", "ecl_containers/include/ecl/containers/push_and_pop")],
  [("buffer / buffer_size / leading / follow / running_index", "storage and cursors", "ecl_containers/include/ecl/containers")], ["memory accesses, thrown exceptions"])
P("C02", "Containers own their storage: copies are independent, nothing is freed twice",
  "Each dynamic container frees the storage it allocated exactly once, whatever sequence of construction, copy, assignment (including to itself), resize, clear and destruction it goes through. A copy has the same size and elements as its source and shares no storage with it, and the source is left unchanged.",
  ["histories"], "every sequence of copying, assigning, resizing and destroying containers",
  "Tests copy once in one direction and never assign a container to itself or resize after copying; leaks are not detected.",
  ["ecl_containers/include/ecl/containers/array", "ecl_containers/include/ecl/containers/fifo.hpp", "ecl_containers/include/ecl/containers/push_and_pop"],
  [("Array<T,DynamicStorage>", "ecl_containers/include/ecl/containers/array"), ("copy construction and assignment", "ecl_containers/include/ecl/containers")], [("buffer", "owned storage", "ecl_containers/include/ecl/containers/array")], ["allocations"])
P("C03", "Queues and circular buffers keep elements in order",
  "A FIFO returns, for every access and for every fill level, the element the documented order says: the newest elements displace the oldest and positions count from the same end always. A push-and-pop buffer pops exactly the elements pushed, oldest first, its size is the number of elements pushed and not popped (capped at its capacity), and positions index elements from the oldest.",
  ["histories", "inputs"], "every sequence of push, pop, fill, clear, resize and indexed access",
  "Tests push a short fixed sequence that wraps at most once.",
  ["ecl_containers/include/ecl/containers/fifo.hpp", "ecl_containers/include/ecl/containers/push_and_pop"],
  [("FiFo::push_back/operator[]", "ecl_containers/include/ecl/containers/fifo.hpp"), ("PushAndPop::push_back/pop_front/size", "ecl_containers/include/ecl/containers/push_and_pop")], [("leading/follow", "ring cursors", "ecl_containers/include/ecl/containers/push_and_pop")], ["returned elements"])
P("M01", "Time stamps stay normalised and compare by the time they denote",
  "Every time stamp or duration the library produces from normalised operands, by construction, arithmetic or from a clock, has a nanosecond part smaller in magnitude than one second and of the same sign as the seconds (or either is zero), and denotes the exact sum, difference or value asked for to the nanosecond; its text reads back as the same time. Comparisons agree with the denoted times for every normalised pair, and exactly one of less, equal and greater holds.",
  ["inputs"], "all operand values, including negative ones and carries",
  "Tests check a few hand-picked sums; carries, borrows, negative values and equal-seconds comparisons are sampled at most once.",
  ["ecl_time/include/ecl/time/timestamp_base.hpp", "ecl_time/src/lib/timestamp_base.cpp", "ecl_time/include/ecl/time/timestamp_pos.hpp"],
  [("TimeStampBase operators", "ecl_time/src/lib/timestamp_base.cpp"), ("TimeStamp", "ecl_time/include/ecl/time/timestamp_pos.hpp")], [("time (sec, nsec)", "value", "ecl_time/include/ecl/time/timestamp_base.hpp")], ["sec(), nsec(), comparisons"])
P("M02", "Waiting functions ask the system for exactly the time they were given",
  "Every sleep, snooze, timed mutex lock and timed semaphore wait hands the system a valid time (nanoseconds within one second) that equals the requested duration, or for deadlines the current time of the clock that call uses plus the duration. In debug builds a failed sleep call is reported by an exception.",
  ["inputs", "fault_sequences", "configurations"], "all durations, all current clock values, all failing system calls",
  "Tests sleep for one or two fixed durations and can only compare wall-clock times loosely; carries near one second and failing clock calls are not reached.",
  ["ecl_time/include/ecl/time/sleep_pos.hpp", "ecl_time/src/lib/sleep_pos.cpp", "ecl_time/include/ecl/time/snooze_pos.hpp", "ecl_threads/src/lib/mutex_pos.cpp", "ecl_ipc/src/lib/semaphore_pos.cpp"],
  [("Sleep/MilliSleep/MicroSleep/NanoSleep", "ecl_time/src/lib/sleep_pos.cpp"), ("Snooze", "ecl_time/include/ecl/time/snooze_pos.hpp"), ("timed trylocks", "ecl_threads, ecl_ipc")], [], ["clock_nanosleep, nanosleep, pthread_mutex_timedlock, sem_timedwait arguments"])
P("M03", "A frequency monitor describes exactly the updates since its last analysis",
  "A frequency monitor reads only the clock it was asked to use. When its window has passed, analyse() reports the number of updates since the previous analysis divided by the time since then, the shortest and longest interval between those updates, and a connection exactly if there was an update; without updates frequency and intervals are zero. Before the window has passed the diagnostics stay as they are. The time of the last update is always that of the last update().",
  ["inputs", "histories"], "all numbers of updates, clock readings, windows and both clocks",
  "No test covers the frequency monitor; results depend on wall-clock readings.",
  ["ecl_time/include/ecl/time/frequency.hpp", "ecl_time/src/lib/frequency.cpp"], [("FrequencyMonitor::update/analyse", "ecl_time/src/lib/frequency.cpp")], [("incoming_counter, last_anyalsed", "updates of the window and its start", "ecl_time/include/ecl/time/frequency.hpp")], ["analyse(), diagnostics()"])
P("V01", "Converters between numbers and text are exact and stay inside their buffers",
  "For every value of every integral type and every size of the buffer, Converter<char*,T> and Converter<std::string,int> either produce the decimal text that reads back as exactly that number (minus sign, no superfluous zeros, terminated), or return NULL when it does not fit; nothing outside the caller's or the converter's own buffer is written. A failed buffer allocation, copying or assigning a converter never leads to an invalid or doubly released buffer, and no signed arithmetic overflows. Digits and characters (Converter<char,int>, Converter<int,char>), strings (Converter<int,std::string>: all of the string has to be a number) and hexadecimal byte text (complete 0xHH bytes, spaces) are converted exactly or refused by exception or error state with the documented return value. Numbers with decimals are handed to the formatter with the requested precision (at most 20) and a size that never exceeds the buffer. A failed conversion does not taint the next one.",
  ["inputs", "histories", "configurations"], "all values, buffer sizes from too small to ample, sequences of conversions, debug, release and exception free builds",
  "Tests convert a dozen values into ample buffers; extreme values, exact-fit buffers, copies and reuse after failure are not covered.",
  ["ecl_converters/include/ecl/converters"],
  [("CharStringBuffer, convertUnsignedIntegral, convertSignedIntegral", "ecl_converters/include/ecl/converters/char_strings.hpp"), ("Converter<std::string,int>", "ecl_converters/include/ecl/converters/string.hpp"), ("Converter<int,std::string>", "ecl_converters/include/ecl/converters/integers.hpp"), ("Converter<std::vector<char>,char*>", "ecl_converters/include/ecl/converters/to_byte_array.hpp")], [], ["written memory, return values, error()"])
P("V02", "Integers survive conversion to bytes and back",
  "Converting any integer of any supported width to a byte array (vector, array or stencil of char, unsigned char or signed char) and back yields the same integer, with byte i of the array holding bits 8i to 8i+7 of the value. A shorter array provides the low bytes, an array of any other size than the integer's is refused for writing and left alone, an array that is longer than the integer is refused for reading, and a refused conversion does not taint the next one.",
  ["inputs"], "all values of all supported integer types",
  "Tests convert two or three values; sign extension and high bytes go unexercised for most types.",
  ["ecl_converters/include/ecl/converters/to_byte_array.hpp", "ecl_converters/include/ecl/converters/from_byte_array.hpp"],
  [("IntegralToByteArray", "ecl_converters/include/ecl/converters/to_byte_array.hpp"), ("FromByteArray", "ecl_converters/include/ecl/converters/from_byte_array.hpp")], [], ["bytes and integers"])
P("F01", "Formatters print every value as configured, temporary settings serve one value",
  "A formatter prints an integer as its exact decimal digits (or, with a 0x or 0b prefix, all its hexadecimal or binary digits), a number with decimals with the configured precision (at most 20 decimals), filled with spaces up to the configured width on the side the alignment says (centred text has the odd space in front), and never cuts a text off. Settings made permanently apply to all later values; settings given together with a value apply to the one text streamed next and, used or not, never affect later values that are given without settings. Each value is printed once: a formatter without a value is refused in debug builds and prints nothing otherwise. Copies of a formatter have their own settings and may outlive the original. The same holds for formatters of float arrays, which also cope with empty ones.",
  ["inputs", "histories", "configurations"], "all values of the integer types in decimal; every digit at every position for hexadecimal and binary; sequences of permanent, temporary and abandoned settings and copies over several widths and all alignments",
  "The formatter tests print a few lines for visual inspection.",
  ["ecl_formatters/include/ecl/formatters", "ecl_formatters/src/lib/strings.cpp", "ecl_containers/include/ecl/containers/common/formatters.hpp"], [("FormatNumber, FormatFloat, Format<std::string>", "ecl_formatters/include/ecl/formatters"), ("FloatContainerFormatter, ByteArrayFormatter", "ecl_containers/include/ecl/containers")], [("prm_/tmp_ settings, ready_to_format", "one-shot settings", "ecl_formatters/include/ecl/formatters/number.hpp")], ["stream output"])
P("X01", "Text streams carry exactly the text given and report what the device refuses",
  "A value read from a text input stream is the one the text spells; text that is malformed, that names a value outside the type, or that the device cannot deliver makes fail() true and leaves the argument unchanged, the internal parse buffer is never overrun, and nothing beyond the character that ends the value is taken from the device. A text output stream sends exactly the text of each number, character, string or manipulator in order, and reports a write the device refused or did not complete. A stream constructed together with its device opens that device with the given settings and reports (or throws) its failure to open, and a log stream writes the time stamp and header of a mode in front of its messages while that mode is enabled, and nothing while it is not.",
  ["inputs", "histories"], "all input texts, all values of all types written, and all sequences of device outcomes",
  "Stream tests parse a few literals; overlong digits, values out of range, failing and incomplete device operations are not tried.",
  ["ecl_streams/include/ecl/streams", "ecl_streams/src/lib"], [("BaseInputTextStream::operator>>", "ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp"), ("BaseOutputTextStream::operator<<", "ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp"), ("LogStream", "ecl_streams/src/lib/log_stream.cpp")], [("fail_bit, error", "stream state", "ecl_streams/include/ecl/streams/text_streams"), ("modes, write_header, write_stamp", "log stream settings", "ecl_streams/include/ecl/streams/log_stream.hpp")], ["extracted values, text sent to the device, fail(), error()"])
P("Y01", "Type traits and numeric limits tell the truth about every built-in type",
  "For every built-in type, the traits that classify it, name its signed or unsigned counterpart, state its size and bound its values agree with the language and its standard library.",
  ["programs"], "every built-in type, const or not, and every trait",
  "The traits are compile-time answers for all instantiations; tests print a few of them.",
  ["ecl_type_traits/include/ecl/type_traits", "ecl_mpl/include/ecl/mpl"], [("is_integral, is_signed, Unsigned, numeric_limits ...", "ecl_type_traits/include/ecl/type_traits")], [], ["template instantiation"])
P("N01", "Concept checks and blueprints accept conforming types and reject others",
  "Code that uses a concept check compiles for every type that offers the required interface and fails to compile for a type that lacks any one required operation.",
  ["programs"], "every class and every required operation",
  "A rejected program cannot be part of a compiled test suite; tests contain accepted uses only.",
  ["ecl_concepts/include/ecl/concepts"], [("ecl_compile_time_concept_check", "ecl_concepts/include/ecl/concepts/macros.hpp"), ("concept classes", "ecl_concepts/include/ecl/concepts")], [], ["compilation"])
P("L01", "The command line accepts exactly the documented combinations",
  "parse() returns exactly if every word of the line belongs to a declared argument (a flag or name, its value in the next word or after the delimiter, switches also combined behind one dash), every required argument was given, no single-valued argument or switch was given twice, exactly one of each exclusive group was given, and every value could be read as its type and meets its constraint; otherwise the failure is reported once through the output object and the program exits with 1; help and version requests are reported and exit with 0. Afterwards exactly the arguments that were given are set; they hold the values of the line in order, all others their defaults. After \"--\" or \"--ignore_rest\" words are no longer taken for flags. Arguments without a flag take the remaining words in order of their declaration. Declaring a flag or name that is malformed or taken raises SpecificationException and leaves the parser unchanged.",
  ["inputs", "histories"], "all argument definitions and command lines",
  "One test parses one fixed command line.",
  ["ecl_command_line/include/ecl/command_line"], [("CmdLine::parse", "ecl_command_line/include/ecl/command_line/cmd_line.hpp"), ("Arg classes", "ecl_command_line/include/ecl/command_line"), ("XorHandler", "ecl_command_line/include/ecl/command_line/xor_handler.hpp")], [], ["parse() outcome, isSet(), getValue(), reports and exit code"])
P("L02", "The command-line parser frees what it made and only that",
  "A command-line parser releases each object it created internally (default arguments, visitors, its default output) exactly once, also when another output object replaces its own, when declarations are refused and when parsing ends the program, and never releases or changes an object its user owns.",
  ["histories", "fault_sequences"], "every order of constructing parsers, arguments and outputs, including exceptions in between",
  "Leaks and double releases are not visible to the single test.",
  ["ecl_command_line/include/ecl/command_line/cmd_line.hpp"], [("CmdLine::_constructor / ~CmdLine / setOutput", "ecl_command_line/include/ecl/command_line/cmd_line.hpp")], [], ["allocations"])
P("U01", "Flag sets behave as sets of flags",
  "Combining, intersecting, complementing, setting, clearing and testing flags agree with the same operations on sets of the enumerated flags, for every pair of flag sets.",
  ["inputs"], "all flag values and pairs",
  "Tests evaluate a few combinations of one enumeration.",
  ["ecl_utilities/include/ecl/utilities/flags.hpp"], [("Flags operators", "ecl_utilities/include/ecl/utilities/flags.hpp")], [], ["operator results"])
P("U02", "Function objects call what they were bound to, once, with the given arguments",
  "Every function object made from a free function, static or member function, functor or reference calls that function exactly once per invocation, on the very object it was bound to, passes bound and supplied arguments unchanged and returns its result; a reference wrapper or reference argument stands for the very object it was made from.",
  ["inputs", "programs"], "all kinds of callables and argument values",
  "The function object tests are not part of the reliable suite and check printed output of a few combinations.",
  ["ecl_utilities/include/ecl/utilities/function_objects.hpp", "ecl_utilities/include/ecl/utilities/references.hpp"], [("generateFunctionObject and the function object classes", "ecl_utilities/include/ecl/utilities/function_objects.hpp"), ("ReferenceWrapper", "ecl_utilities/include/ecl/utilities/references.hpp")], [], ["calls made, results"])
P("E01", "Exceptions carry the flag, location and data they were raised with",
  "An exception raised with an error flag, location, message or data object gives exactly these back to whoever catches it, also after being rethrown with a further location, and copying or destroying exceptions frees what they hold exactly once.",
  ["histories", "programs"], "all flags, all exception classes, any number of copies and rethrows",
  "Tests throw a single exception of each kind and print it.",
  ["ecl_exceptions/include/ecl/exceptions", "ecl_exceptions/src/lib/standard_exception.cpp"], [("StandardException", "ecl_exceptions/src/lib/standard_exception.cpp"), ("DataException", "ecl_exceptions/include/ecl/exceptions/data_exception.hpp")], [], ["flag(), what(), data()"])
P("R01", "Path resolution returns a resolved path or reports failure, leaking nothing",
  "Resolving a path returns the absolute path the system produced, or returns the error flag that belongs to the system's error and leaves the caller's result as it was; it never returns data that was not set and releases every buffer it allocated on every path.",
  ["inputs", "fault_sequences", "configurations"], "all paths and every outcome of the system call",
  "No test makes the resolution fail.",
  ["ecl_filesystem/src/lib/realpath.cpp"], [("realpath", "ecl_filesystem/src/lib/realpath.cpp")], [], ["returned string, exceptions"])
G = "ecl_geometry/"; GI = G + "include/ecl/geometry/"; GS = G + "src/lib/"
P("A01", "Signs, binomial coefficients and point pairs follow their definition",
  "The sign functions return the sign of every value of every arithmetic type (each function with its own result for zero), the cube root of any number is the number whose cube it is, Pascal's triangle holds exactly the binomial coefficients at every index and through every iterator, and 2D points keep, add, subtract, scale and compare coordinate by coordinate.",
  ["inputs"], "all values; all indices and orders of the triangle; all points",
  "Tests compare a few sample values.",
  ["ecl_math/include/ecl/math/simple.hpp", GS + "pascals_triangle.cpp", GI + "cartesian_point.hpp"], [("sign, psign, nsign, cube_root", "ecl_math/include/ecl/math/simple.hpp"), ("PascalsTriangle", GI + "pascals_triangle.hpp"), ("CartesianPoint", GI + "cartesian_point.hpp")], [], ["returned values, triangle elements"])
P("U03", "A parameter holds what it was given and a singleton is one object",
  "A Parameter gives back, through every accessor and conversion, exactly the value it was constructed with or last assigned, copies are independent; every use of a Singleton refers to the same object, constructed once.",
  ["inputs", "histories"], "all values and sequences of assignments",
  "Tests assign a few values.",
  ["ecl_utilities/include/ecl/utilities/parameter.hpp", "ecl_utilities/include/ecl/utilities/singleton.hpp"], [("Parameter", "ecl_utilities/include/ecl/utilities/parameter.hpp"), ("Singleton", "ecl_utilities/include/ecl/utilities/singleton.hpp")], [], ["returned values and addresses"])
P("A02", "Polynomial operations obey the algebra of polynomials",
  "Evaluation, derivatives, shifts, synthetic division, roots, intersections and extrema of polynomials are those of the polynomial with the stored coefficients: for all coefficients, a returned root evaluates to zero, quotient times divisor plus remainder gives the dividend, an intersection lies on both lines and an operation reports failure exactly when there is no result (real arithmetic; rounding is not considered).",
  ["inputs"], "all coefficients and arguments",
  "Tests evaluate a few sample polynomials.",
  [GI + "polynomial.hpp", GS + "polynomial.cpp"], [("Polynomial, Division, Roots, Intersection, Maximum, Minimum", GI + "polynomial.hpp")], [], ["returned values and flags"])
P("A03", "Interpolating polynomials and splines meet all the conditions they are named for",
  "Lines, cubics and quintics made by a blueprint take exactly the values and derivatives prescribed at their ends; cubic, tension and smoothed linear splines pass through (or, at rounded corners, stay on the lines between) all the points given, join with continuous slope (and curvature where promised), satisfy their end conditions, use the right segment for every argument, keep accelerations within the bound given, and refuse arguments outside of their domain (real arithmetic; rounding is not considered).",
  ["inputs", "configurations"], "all knots, values, slopes, tensions and arguments; two to five points",
  "Tests print a few sample splines without checking them.",
  [GS + "polynomial_blueprints.cpp", GS + "cubic_spline.cpp", GS + "tension_spline.cpp", GS + "smooth_linear_spline.cpp"], [("blueprints", GS + "polynomial_blueprints.cpp"), ("CubicSpline", GI + "cubic_spline.hpp"), ("TensionSpline", GI + "tension_spline.hpp"), ("SmoothLinearSpline", GI + "smooth_linear_spline.hpp")], [], ["values, derivatives, exceptions"])
P("A04", "Angles are wrapped to one turn and always keep their direction",
  "Every way to make, assign, add, subtract, multiply or convert an angle gives a number between minus pi and pi that points in the direction the operation prescribes; degrees and radians, and angles and rotation matrices, convert into each other without loss (real arithmetic; rounding is not considered).",
  ["inputs"], "all angles of type float and double",
  "Tests compare a few sample angles.",
  [GI + "angle.hpp", GS + "angle.cpp"], [("wrap_angle", GS + "angle.cpp"), ("Angle", GI + "angle.hpp")], [], ["returned angles"])
P("A05", "Poses compose, invert and convert as rigid motions of the plane",
  "A pose composed with another is the second as seen from the first, a pose times its inverse is the identity, relative poses, conversions between the storage types, setters and homogeneous points change exactly what they name, also when a pose is combined with itself (real arithmetic; rounding within the type is not considered, but a pose of doubles never loses coordinates to single precision).",
  ["inputs", "programs"], "all poses",
  "Tests compare a few sample poses.",
  [GI + "pose2d.hpp", GI + "legacy_pose2d.hpp", GI + "homogeneous_point.hpp"], [("Pose2D, concatenate_poses, extend_pose", GI + "pose2d.hpp"), ("LegacyPose2D", GI + "legacy_pose2d.hpp"), ("HomogeneousPoint", GI + "homogeneous_point.hpp")], [], ["coordinates and headings"])
P("A06", "Segment distances, running statistics and wheel motion match their definition",
  "The distance from a segment is that to its nearest point, also when the segment is vertical or has no length; the running mean and variance equal those of all the data pushed since the last clear; differential drive kinematics convert between wheel and base motion by the rolling constraint, and the converse conversion gives back what was put in (real arithmetic; rounding is not considered).",
  ["inputs", "histories"], "all coordinates and data; up to five data after up to three before a clear",
  "Tests compare a few sample values.",
  [GS + "linear_segment.cpp", "ecl_statistics/include/ecl/statistics/cumulative_statistics.hpp", "ecl_mobile_robot/src/lib/differential_drive.cpp"], [("LinearSegment", GS + "linear_segment.cpp"), ("CumulativeStatistics", "ecl_statistics/include/ecl/statistics/cumulative_statistics.hpp"), ("DifferentialDriveKinematics", "ecl_mobile_robot/src/lib/differential_drive.cpp")], [], ["returned numbers"])
P("A07", "Trajectories keep their elements through access, joining and resizing",
  "Reading or setting a part of an odometry, twist, pose or position concerns exactly that part; elements, ends, parts, lengths and joins of trajectories are those of the sequence of their elements, also when a trajectory is added to itself; the distance from a trajectory is that from the nearest of its segments.",
  ["inputs", "histories"], "all values; trajectories of up to six elements",
  "No test covers the odometry helpers.",
  [GS + "odometry_helper.cpp"], [("odometry helpers", GS + "odometry_helper.cpp")], [], ["sizes, elements, distances"])
P("A08", "Approximate comparison and norms follow their definition",
  "isApprox on two integers is true exactly when their values are equal, whatever their types; on real numbers (or an integer and a real) it is true exactly when they differ by at most the given fraction of the smaller magnitude, in either order, or without one by the fraction that belongs to the real type; isApproxOrLessThan is true exactly when the first is less or approximately equal; the euclidean norms are the square root of the sum of squares (real arithmetic; rounding is not considered).",
  ["inputs"], "all values of the numeric types",
  "Tests compare a few sample values.",
  ["ecl_math/include/ecl/math/fuzzy.hpp", "ecl_math/include/ecl/math/norms.hpp"], [("isApprox, isApproxOrLessThan", "ecl_math/include/ecl/math/fuzzy.hpp"), ("euclidean_norm", "ecl_math/include/ecl/math/norms.hpp")], [], ["returned values"])
P("A09", "Joint trajectories keep waypoints, respect rates and release their splines",
  "Waypoints and trajectories give back what they were given, copies are independent and equal; interpolation gives each segment the longer of its own duration and the time its slowest joint needs at its nominal rate, stretches exactly the segments at a corner that is too sharp, and refuses waypoints that are too few, without positive rate or without duration; a trajectory answers with the spline of the joint asked for, only within its time; spline functions are released exactly once whatever is cleared, copied, assigned or interpolated again.",
  ["inputs", "histories"], "all values; trajectories of up to four waypoints and two joints; sequences of three operations",
  "The existing tests only print.",
  ["ecl_manipulators/src/lib/trajectory.cpp", "ecl_manipulators/include/ecl/manipulators/trajectory.hpp", "ecl_manipulators/include/ecl/manipulators/waypoint.hpp", GI + "spline_function.hpp"], [("Trajectory<JointAngles>", "ecl_manipulators/include/ecl/manipulators/trajectory.hpp"), ("WayPoint<JointAngles>", "ecl_manipulators/include/ecl/manipulators/waypoint.hpp")], [], ["returned numbers, exceptions, heap"])
P("G01", "No operation depends on an uninitialised value",
  "Whatever constructor made an object and whatever operations follow, no decision, result or system call of the library depends on a variable or member that was never given a value.",
  ["histories", "configurations"], "all constructors and sequences of public operations of the device, thread, ipc, container, time, stream, formatter and sigslot classes",
  "An indeterminate value is usually benign in a test process with fresh zero pages.",
  ["ecl_devices", "ecl_threads", "ecl_ipc", "ecl_containers", "ecl_time", "ecl_streams", "ecl_formatters", "ecl_sigslots"], [("constructors", "all components")], [], ["reads of indeterminate memory"])
P("K01", "Numerical results stay accurate under rounding, and iterative methods converge",
  "Filters, regressions, covariance ellipsoids, trajectories and the numerical routines of polynomials, splines and poses return the values of their mathematical definitions within floating point accuracy.",
  ["inputs"], "all numerical inputs",
  "Tests compare a few sample values.",
  ["ecl_statistics", "ecl_geometry", "ecl_manipulators", "ecl_linear_algebra", "ecl_math"], [("numerical routines", "ecl_geometry/src/lib, ecl_statistics/src/lib, ecl_manipulators/src/lib")], [], ["returned numbers"])
P("K02", "Snoozing threads wake with the configured period and priorities take effect",
  "A snoozing thread wakes once per period without drift and a thread given a real-time priority is scheduled with it.",
  ["schedules"], "all schedules and system loads",
  "Timing under load is not asserted by tests.",
  ["ecl_time/include/ecl/time/snooze_pos.hpp", "ecl_threads/src/lib/priority_pos.cpp"], [("Snooze, set_priority", "ecl_time, ecl_threads")], [], ["wall-clock behaviour"])
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
open(d, 'w').write(''.join(json.dumps(o) + '\n' for o in OUT))
