"""The properties, their contracts and how each is decided (see gen.py)."""


def C(file, entry, reach=(), *shards, **kw):
    d = {"file": file, "entry": entry, "reach": list(reach), "shards": [list(s) for s in shards]}
    d.update(kw)
    return d


SRC = "mdflib/src/"
PROPS = [
    dict(id="P01", title="CAN message fields are independent and the length code is ISO 11898",
         statement="Setting any field or flag of a CAN message changes that field only, reading it back returns the value set, and Reset clears the flags and the payload. "
                   "The identifier is extended exactly when it needs more than 11 bits or is marked so, and the data length code is the "
                   "smallest ISO 11898 code whose length holds the payload.",
         over=["inputs", "histories"], forall="every reachable message state, every setter and every argument value (payload lengths 0..64)",
         why="Tests set a few values on a fresh message; independence of all fields needs every field value in every state.",
         files=[SRC + "canmessage.cpp", "include/mdf/canmessage.h"],
         mechanism="postcondition of every accessor over the view of all fields; DLC table against an independent table",
         note="Complete: loop-free over full-domain symbolic inputs; payload length enumerated 0..64.",
         contracts=[C("can_fields", "can_fields", ["checked", "data_length", "data_bytes", "reset"]), C("can_fields", "can_dlc_table", ["end"])]),
    dict(id="P02", title="A logged CAN frame is stored exactly as the created channels describe it",
         statement="For every CAN data, remote, error and overload frame, storage type and member selection, logging the frame stores one "
                   "record of exactly the declared size, in which every channel that the bus configuration created lies inside the record "
                   "and decodes to the value of that member of the frame. The payload bytes are stored unchanged, in the record or as "
                   "detached variable length data.",
         over=["inputs", "configurations", "histories"],
         forall="all member values, payload lengths 0..64, 3 storage types, mandatory-only or not, any earlier content of the sample buffer",
         why="Tests log a handful of constant messages; a wrong bit in one member needs a particular value, frame type and storage type.",
         files=[SRC + "canconfigadapter.cpp", SRC + "iconfigadapter.cpp", SRC + "canmessage.cpp", SRC + "samplequeue.cpp", SRC + "ichannel.cpp", SRC + "cg4block.cpp", SRC + "cn4block.cpp"],
         mechanism="configuration created by the real adapter, frame recorded by the real queue, each declared channel decoded by the real codec",
         note="Complete over all member values; payload lengths enumerated 0..64, maximum lengths 8 and 64 set on the writer or the adapter, default group names.",
         contracts=[C("can_record", "can_record", ["mlsd", "vlsd"], ("frame", 4), ("storage", 3), cost=5)]),
    dict(id="P03", title="The CAN observer delivers the frames that were logged",
         statement="Feeding the stored records of any logged CAN frame to a CAN bus observer yields one message, by callback or by index, "
                   "whose members and payload bytes equal those of the logged frame.",
         over=["inputs", "configurations"],
         forall="all member values, payload lengths 0..64, 3 storage types, mandatory-only or not, callback or buffered delivery",
         why="Tests compare a few constant messages and never the error frame members.",
         files=[SRC + "canbusobserver.cpp", SRC + "canmessage.cpp", SRC + "isampleobserver.cpp", "include/mdf/isampleobserver.h", SRC + "ichannel.cpp"],
         mechanism="real configuration, record and observer code composed; postcondition: message equality",
         note="Complete over all member values; one message per observer; payload lengths enumerated.",
         contracts=[C("can_record", "can_observer", ["observed"], ("frame", 4), ("storage", 3), cost=5),
                    C("can_record", "can_observer_sequence", ["sequence"], ("storage", 3), ("frame", 1), cost=5)]),
    dict(id="P04", title="Numeric channel values are stored and read exactly",
         statement="Every integer (any bit position and width 1..64, signed or unsigned, little or big endian) and every 16, 32 and 64 bit "
                   "float value is read from a record exactly as the MDF standard defines it. Writing a value to a channel of a prepared "
                   "group makes it, with its invalid flag, read back unchanged and changes no other channel; array elements use their own place.",
         over=["inputs", "configurations"],
         forall="all record contents, all bit offsets and bit counts, all values, array indices inside and outside",
         why="The layout space (type x offset x width x content) is far beyond what the tests sample; errors show at one offset/width only.",
         files=[SRC + "ichannel.cpp", SRC + "cn4block.cpp", SRC + "cg4block.cpp", SRC + "half.hpp", "include/mdf/ichannel.h"],
         mechanism="postcondition: decoded value equals an independent bit-by-bit definition over the record",
         note="Complete over values, bit positions and widths; channel placed at byte offset 0..1 of a record of up to 11 bytes; big endian integers of whole bytes.",
         contracts=[C("codec", "codec_read_int", ["unsigned", "signed"], ("type", 4), ("bitoffset", 8)),
                    C("codec", "codec_read_float", ["double", "float"]),
                    C("codec", "codec_read_half", ["half"], ("type", 2)),
                    C("codec", "codec_write", ["written"]),
                    C("codec", "codec_array", ["element", "outside"])]),
    dict(id="P05", title="Text, byte array and variable length values read back as stored",
         statement="A byte array or text stored in a fixed length channel reads back unchanged, cut or zero padded to the channel length, and "
                   "changes no other channel. Variable length values all read back unchanged, with their own length and invalid flag, however many "
                   "are stored after them.",
         over=["inputs", "histories"],
         forall="all contents, lengths below, at and above the channel length, all earlier record contents",
         why="Boundary lengths, stale record contents and interleaved variable length values are not sampled by tests.",
         files=[SRC + "ichannel.cpp", SRC + "cn4block.cpp", SRC + "cg4block.cpp"],
         mechanism="store/load postconditions over the record and the signal data list",
         note="All byte contents; channel lengths 1..5, value lengths 0..7, three consecutive variable length values (stated bounds).",
         bounded=True,
         bounds=["channel lengths 1..5, value lengths 0..7, histories of 3 values"],
         contracts=[C("codec_text", "bytes_fixed", ["stored"]), C("codec_text", "text_fixed", ["stored"]), C("codec_text", "vlsd_values", ["stored"])]),
    dict(id="P06", title="Reading a channel never leaves the record, whatever the file claims",
         statement="Whatever position, width, data type, variable length index or stored length a file claims for a channel, reading its value from "
                   "any record touches no memory outside the record and signal data, never throws, and reports the value invalid when it "
                   "does not lie inside them.",
         over=["inputs"],
         forall="all byte/bit offsets, bit counts, data types, 64-bit indices, stored lengths and record contents",
         why="Corrupt or truncated files give unlimited layouts; tests only read well-formed files.",
         files=[SRC + "ichannel.cpp", SRC + "cn4block.cpp", "include/mdf/ichannel.h"],
         mechanism="memory-safety obligations on every load and store plus a postcondition on the returned flag",
         note="Positions, widths, indices and contents are full-domain (byte offsets below 2^28); record sizes 0..6 bytes and signal data 0..7 bytes are case splits.",
         bounded=True,
         bounds=["records of 0..6 bytes, signal data of 0..7 bytes; claimed lengths up to 15 (memory for the claimed length is allocated first)"],
         contracts=[C("codec_text", "hostile_numeric", ["end"], ("datatype", 18)), C("codec_text", "hostile_bytes", ["bytes", "end"], ("datatype", 7)),
                    C("codec_text", "hostile_vlsd", ["read", "end"], ("datatype", 7), cost=5), C("codec_text", "hostile_mlsd", ["read", "end"], cost=4)]),
    dict(id="P07", title="A logged LIN event is stored exactly as the created channels describe it",
         statement="Every field of a LIN message keeps the value set whatever other field is set, and Reset clears it. For every LIN event "
                   "and member selection, logging the event stores one record of exactly the declared size in which every channel that the "
                   "bus configuration created lies inside the record and decodes to the value of that member; payload bytes are unchanged.",
         over=["inputs", "configurations", "histories"],
         forall="all 8 events, all member values, payload lengths 0..8, storage types, mandatory-only or not (writer or adapter), any earlier sample buffer",
         why="Tests log a few constant messages; a member stored in another bit than its channel reads needs a particular event and value.",
         files=[SRC + "linmessage.cpp", SRC + "linconfigadapter.cpp", SRC + "iconfigadapter.cpp", SRC + "samplequeue.cpp", SRC + "ichannel.cpp"],
         mechanism="configuration by the real adapter, event recorded by the real queue, each declared channel decoded by the real codec",
         note="Complete over all member values; payload lengths enumerated 0..8; default group names.",
         contracts=[C("lin", "lin_fields", ["set", "changed"]),
                    C("lin", "lin_record", ["recorded", "mlsd"], ("event", 8), cost=5)]),
    dict(id="P08", title="A logged Ethernet event is stored as the created channels describe it",
         statement="Every field of an Ethernet message keeps the value set. For every Ethernet event, storage type and member selection, logging the event stores one "
                   "record of exactly the declared size in which every channel that the bus configuration created lies inside the record and decodes "
                   "to the value of that member. Payload bytes are detached unchanged and linked to a variable length group of their own.",
         over=["inputs", "configurations", "histories"],
         forall="all 4 events, all member values, payload lengths 0, 1, 14, 60 and 1500, storage types, mandatory-only or not (writer or adapter), any earlier sample buffer",
         why="Tests log constant messages of some events; a member stored in another bit than its channel reads needs a particular event and value.",
         files=[SRC + "ethmessage.cpp", SRC + "ethconfigadapter.cpp", "include/mdf/ethmessage.h", SRC + "iconfigadapter.cpp", SRC + "samplequeue.cpp", SRC + "ichannel.cpp"],
         mechanism="configuration by the real adapter, event recorded by the real queue, each declared channel decoded by the real codec",
         note="Complete over all member values; payload lengths are a case split over representative lengths; default group names.",
         contracts=[C("eth", "eth_fields", ["set", "changed"]), C("eth", "eth_record", ["recorded", "vlsd"], ("event", 4), cost=5)]),
    dict(id="P09", title="A logged FlexRay event is stored as the created channels describe it",
         statement="Every field of a FlexRay event keeps the value set. For every FlexRay event, storage type and member selection, logging the event stores one "
                   "record of exactly the declared size in which every channel that the bus configuration created lies inside the record and decodes "
                   "to the value of that member. Payload bytes are detached unchanged and linked to a variable length group of their own.",
         over=["inputs", "configurations", "histories"],
         forall="all 6 events, all member values, payload lengths 0, 1, 8 and 254, storage types, mandatory-only or not (writer or adapter), any earlier sample buffer",
         why="Tests log constant messages of some events; a member stored in another bit than its channel reads needs a particular event and value.",
         files=[SRC + "flexraymessage.cpp", SRC + "flexrayconfigadapter.cpp", "include/mdf/flexraymessage.h", SRC + "iconfigadapter.cpp", SRC + "samplequeue.cpp", SRC + "ichannel.cpp"],
         mechanism="configuration by the real adapter, event recorded by the real queue, each declared channel decoded by the real codec",
         note="Complete over all member values; payload lengths are a case split over representative lengths; default group names.",
         contracts=[C("flexray", "flexray_fields", ["set"]), C("flexray", "flexray_record", ["recorded"], ("event", 6), cost=5)]),
    dict(id="P10", title="A logged MOST event is stored as the created channels describe it",
         statement="Every field of a MOST event keeps the value set. For every MOST event, storage type and member selection, logging the event stores one "
                   "record of exactly the declared size in which every channel that the bus configuration created lies inside the record and decodes "
                   "to the value of that member. Payload bytes are detached unchanged and linked to a variable length group of their own.",
         over=["inputs", "configurations", "histories"],
         forall="all 9 events, all member values, payload lengths 0, 1, 45 and 300, storage types, mandatory-only or not (writer or adapter), any earlier sample buffer",
         why="Tests log constant messages of some events; a member stored in another bit than its channel reads needs a particular event and value.",
         files=[SRC + "mostmessage.cpp", SRC + "mostconfigadapter.cpp", "include/mdf/mostmessage.h", SRC + "iconfigadapter.cpp", SRC + "samplequeue.cpp", SRC + "ichannel.cpp"],
         mechanism="configuration by the real adapter, event recorded by the real queue, each declared channel decoded by the real codec",
         note="Complete over all member values; payload lengths are a case split over representative lengths; default group names.",
         contracts=[C("most", "most_fields", ["set"]), C("most", "most_record", ["recorded"], ("event", 9), cost=5)]),
    dict(id="P11", title="Formula conversions give the documented engineering value",
         statement="For every channel value and every parameter set, a linear, rational, polynomial, exponential, logarithmic or absent conversion returns "
                   "exactly the value of its documented formula, in MDF 3 and MDF 4, and reports the value invalid exactly when parameters are missing or the "
                   "formula divides by zero.",
         over=["inputs", "configurations"],
         forall="all channel values (double, unsigned and signed 64 bit), all parameter values, 0..7 parameters",
         why="Tests evaluate one or two parameter sets per formula; zero divisors, missing parameters and special values are not sampled.",
         files=[SRC + "ichannelconversion.cpp", "include/mdf/ichannelconversion.h", SRC + "cc4block.cpp", SRC + "cc3block.cpp"],
         mechanism="postcondition: bit-precise equality with the formula of the standard",
         note="Complete over channel values and parameters; log and exp of libm are uninterpreted functions, pow(x,2) is x*x.",
         contracts=[C("conv", "conv_formula", ["valid", "invalid"], ("value", 3), ("mdf3", 2))]),
    dict(id="P12", title="Table and text conversions select the documented entry",
         statement="A value to value table gives the nearest or the interpolated value, a range table the value of the first range holding the channel "
                   "value (upper limit included for integers, excluded for floats) or the default, a text table the text of the matching key or range or the default "
                   "text, and a text conversion the value or translation of the equal text or the default.",
         over=["inputs", "configurations"],
         forall="all channel values except NaN, all keys, limits and values; tables of up to 4 rows with increasing keys",
         why="Boundary values (on a key, at a range limit, outside) and table sizes are a product space tests only touch.",
         files=[SRC + "ichannelconversion.cpp", "include/mdf/ichannelconversion.h", SRC + "cc4block.cpp", SRC + "cc3block.cpp"],
         mechanism="postcondition: equality with an independent search over the table",
         note="All values; tables of 0..4 rows (3 rows and texts of 2 letters for text keys) are the stated bound.",
         bounded=True, bounds=["tables of at most 4 rows (3 rows of 2 letter keys for text keys); channel value not NaN"],
         contracts=[C("conv", "conv_value_table", ["below", "between", "on a key"], ("rows", 4), cost=4),
                    C("conv", "conv_range_value", ["in a range", "default"], cost=4),
                    C("conv", "conv_text", ["key text", "default text"], cost=4),
                    C("conv", "conv_from_text", ["matched", "default"])]),
    dict(id="P13", title="MDF4 configuration blocks read back as they were written",
         statement="Every header, history, data group, channel group, channel, source, conversion, array, event and hierarchy that is written to an MDF4 file is "
                   "read back with the same names, types, flags, numbers, texts, order and references. The file is a sequence of aligned blocks of their "
                   "stated length, and writing the blocks again changes only counters and start time.",
         over=["inputs", "configurations", "histories"],
         forall="all numeric and flag field values, all texts up to 6 bytes, list lengths up to 3",
         why="Tests write one configuration and compare a few members; a swapped, dropped or truncated field needs a particular value or combination.",
         files=[SRC + "mdfblock.cpp", SRC + "mdfblock.h", SRC + "hd4block.cpp", SRC + "dg4block.cpp", SRC + "cg4block.cpp", SRC + "cn4block.cpp", SRC + "cc4block.cpp",
                SRC + "si4block.cpp", SRC + "ca4block.cpp", SRC + "ev4block.cpp", SRC + "ch4block.cpp", SRC + "fh4block.cpp", SRC + "tx4block.cpp", SRC + "mdf4timestamp.cpp"],
         mechanism="written and read by the real Write and Read functions over a byte-exact file model; postcondition: equality of every member",
         note="All field values; numbers of channels, groups, parameters, references and text lengths are case splits. XML metadata (units, descriptions, comments) and attachments are not covered.",
         bounded=True, bounds=["texts up to 6 bytes, up to 3 parameters, references, channels and groups", "no XML metadata, no attachments, no event scopes"],
         contracts=[C("blocks4", "b4_source", ["source"]),
                    C("blocks4", "b4_conversion", ["conversion", "inverse"], ("kind", 12), cost=5),
                    C("blocks4", "b4_channel", ["channel", "composition"], cost=5),
                    C("blocks4", "b4_group", ["group", "vlsd"], cost=5),
                    C("blocks4", "b4_event", ["event"]),
                    C("blocks4", "b4_array", ["array", "axis"]),
                    C("blocks4", "b4_header", ["header", "zone", "references"], ("zone", 3), ("again", 2), cost=5)]),
    dict(id="P14", title="A finished measurement reads back every value, time and validity written",
         statement="For every sequence of samples handed to an MDF4 writer between start and stop, compressed or not, the finished file holds exactly these samples in "
                   "order. A reader gets for each channel and sample, and for each element of an array, the value written, its validity, its engineering value and its time relative to the start. Reading a range of "
                   "samples gives the values of that range.",
         over=["inputs", "configurations", "histories"],
         forall="all values and validities of every channel data type, all sample times, compression on or off, work thread waking between any two calls; up to 2 samples (4 for ranges)",
         why="Tests write a ramp to a few channels; a wrong offset, invalidation bit or time needs particular neighbours, values or times.",
         files=[SRC + "mdfwriter.cpp", SRC + "mdf4writer.cpp", SRC + "samplequeue.cpp", SRC + "dg4block.cpp", SRC + "cg4block.cpp", SRC + "cn4block.cpp", SRC + "mdfreader.cpp",
                SRC + "readcache.cpp", SRC + "writecache.cpp", SRC + "dt4block.cpp", SRC + "dz4block.cpp", SRC + "hl4block.cpp", SRC + "dl4block.cpp", "include/mdf/ichannelobserver.h", SRC + "channelobserver.h"],
         mechanism="the real writer, file blocks and reader run on a byte-exact file model with symbolic values; postcondition: equality with what was handed in",
         note="All values and times; the number of samples is bounded. zlib is a trusted inverse pair; the work thread is woken at every point between two user calls.",
         bounded=True, bounds=["one group of 7 channels, at most 2 samples (4 for ranges)", "zlib trusted as an inverse pair"],
         contracts=[C("e2e", "e2e_layout", ["measured", "two samples"], ("invalidation bits", 2), ("compress", 2), ("samples", 3), cost=20),
                    C("e2e", "e2e_time", ["time"]),
                    C("e2e", "e2e_partial", ["partial"]),
                    C("e2e", "e2e_wide", ["invalid", "valid"], ("channels", 4), cost=10),
                    C("e2e", "e2e_array", ["array"], ("dimensions", 2), ("order", 2), ("bytes", 2), cost=5),
                    C("e2e", "e2e_engineering", ["engineering"], ("type", 3), ("compress", 2), cost=8)]),
    dict(id="P15", title="Samples keep their group and order across groups, start, stop and append",
         statement="For every interleaving of samples over channel groups and data groups, each group of the file holds exactly its own samples in the order saved. Samples saved "
                   "before the start are kept when they lie within the pre-trigger time and dropped otherwise. Appending to a finished file keeps what it holds and "
                   "adds the new groups and samples. Observers see a record only of the groups they subscribe to.",
         over=["inputs", "configurations", "histories"],
         forall="all values, all interleavings of up to 3 samples over 2 groups, pre-trigger times 0, 1 and 2 s, reopened or continued writers, work thread waking between any two calls",
         why="Which record lands in which group or is trimmed depends on the history of calls; tests save one fixed pattern.",
         files=[SRC + "mdfwriter.cpp", SRC + "mdf4writer.cpp", SRC + "samplequeue.cpp", SRC + "dg4block.cpp", SRC + "cg4block.cpp", SRC + "mdfreader.cpp", SRC + "readcache.cpp", SRC + "writecache.cpp", SRC + "mdf4file.cpp"],
         mechanism="the real writer, file blocks and reader run on a byte-exact file model with symbolic values and every history as a case split",
         note="All values; the number of groups and samples is bounded. zlib is a trusted inverse pair.",
         bounded=True, bounds=["2 channel groups or 2 data groups, at most 3 samples (4 over an append)", "zlib trusted as an inverse pair"],
         contracts=[C("e2e", "e2e_groups", ["measured", "three samples"], ("compress", 2), ("samples", 4), cost=20),
                    C("e2e", "e2e_data_groups", ["measured", "three samples"], ("compress", 2), ("samples", 4), cost=20),
                    C("e2e", "e2e_append", ["appended", "few"], ("reopen", 2), ("first", 3), cost=10),
                    C("e2e", "e2e_pretrigger", ["all before", "started"], ("seconds", 3), ("compress", 2), cost=4),
                    C("e2e", "queue_trim", ["empty", "started", "armed"], ("samples", 5), ("started", 2), cost=8)]),
    dict(id="P16", title="Variable length values and compressed data read back unchanged",
         statement="For every sequence of variable length values of any length, empty ones included, a reader of the finished file gets for each sample the value "
                   "written, compressed or not. Compressed blocks give back exactly the bytes put in, also when the data were transposed.",
         over=["inputs", "configurations"],
         forall="all byte values, value lengths 0..3 and above the compression threshold, compression on or off, up to 2 samples; data below, at and above the 4 MB of a compressed block",
         why="Length fields and offsets between records and signal data depend on all earlier values; tests use one text pattern.",
         files=[SRC + "sd4block.cpp", SRC + "dz4block.cpp", SRC + "dg4block.cpp", SRC + "cn4block.cpp", SRC + "samplequeue.cpp", SRC + "cg4block.cpp", SRC + "mdfreader.cpp", SRC + "zlibutil.cpp", SRC + "dl4block.cpp", SRC + "datablock.cpp"],
         mechanism="the real writer, signal data blocks and reader run on a byte-exact file model with symbolic values",
         note="All byte values; the number of samples is bounded. zlib is a trusted inverse pair.",
         bounded=True, bounds=["two channels, at most 2 samples; one pattern of values with symbolic ends for data above 4 MB", "zlib trusted as an inverse pair"],
         contracts=[C("e2e", "e2e_variable", ["variable", "compressed"], ("compress", 2), ("samples", 3), cost=20),
                    C("e2e", "e2e_compressed", ["compressed"]),
                    C("e2e_big", "big_signal_data", ["big"], ("rest", 2), cost=200, mem=6, time=420, args=["--max-steps", "2000000000"]),
                    C("e2e_big", "big_records", ["saved in parts", "saved at the end"], ("part", 3), cost=190, mem=6, time=420, args=["--max-steps", "2000000000"])]),
    dict(id="P17", title="Records and signal data are read whole wherever data blocks cut them",
         statement="For every MDF4 record stream, cut at any byte over plain, deflated or transposed data blocks, empty ones included, in any chain of lists, reading "
                   "delivers each record of the subscribed groups once, in order, with its bytes and number. Reading a sample range or the variable length "
                   "values at given offsets delivers exactly those. Sample reductions give the stored mean, minimum and maximum.",
         over=["inputs", "configurations", "histories"],
         forall="all record bytes, record id sizes 1, 2, 4 and 8, any subset of 3 groups subscribed, any two cuts, all kinds of data block, up to 3 records or values",
         why="Tests read files whose blocks end at record borders; other writers cut anywhere, mix compression and leave empty blocks.",
         files=[SRC + "readcache.cpp", SRC + "dg4block.cpp", SRC + "datalistblock.cpp", SRC + "datablock.cpp", SRC + "dl4block.cpp", SRC + "hl4block.cpp", SRC + "dz4block.cpp", SRC + "dt4block.cpp",
                SRC + "zlibutil.cpp", SRC + "dgrange.cpp", SRC + "sr4block.cpp", SRC + "sr4block.h", SRC + "cn4block.cpp", SRC + "idatagroup.cpp", "include/mdf/isamplereduction.h"],
         mechanism="file bytes built from the MDF4 standard, read by the real functions; postcondition: delivered records equal those in the stream",
         note="All bytes; the number of records and parts is bounded. zlib is a trusted inverse pair. LD/DV/DI column storage is not covered.",
         bounded=True, bounds=["at most 3 records or values over at most 3 data blocks", "zlib trusted as an inverse pair"],
         contracts=[C("stream", "stream_records", ["nothing", "some", "two records"], ("mode", 5), ("subscribed", 5), cost=20),
                    C("stream", "stream_range", ["nothing", "some", "two records"], ("kind", 2), ("min", 3), cost=5),
                    C("stream", "stream_signal", ["all", "selected"], ("values", 3), ("kind", 2), cost=10),
                    C("stream", "stream_vlsd", ["all", "selected"]),
                    C("stream", "stream_reduction", ["reduction", "validity"])]),
    dict(id="P18", title="A finished MDF3 measurement reads back every value written",
         statement="For every sequence of samples handed to an MDF3 writer between start and stop, over any interleaving of channel groups and data groups, each group of "
                   "the finished file holds exactly its own samples in the order saved, and a reader gets the value written. Reading a sample range or a subset of the "
                   "groups gives exactly those. Appending to a finished file keeps what it holds and adds the new groups and samples.",
         over=["inputs", "configurations", "histories"],
         forall="all values of every channel data type, all interleavings of up to 3 samples over 2 groups, reopened or continued writers, work thread waking between any two calls",
         why="Record ids, positions patched after writing and sample counts depend on the history of calls; tests save one fixed pattern.",
         files=[SRC + "mdfwriter.cpp", SRC + "mdf3writer.cpp", SRC + "mdf3file.cpp", SRC + "dg3block.cpp", SRC + "cg3block.cpp", SRC + "cn3block.cpp", SRC + "samplequeue.cpp", SRC + "mdfreader.cpp",
                SRC + "hd3block.cpp", SRC + "mdfblock.cpp", SRC + "readcache.cpp"],
         mechanism="the real writer, file blocks and reader run on a byte-exact file model with symbolic values; postcondition: equality with what was handed in",
         note="All values; the number of groups and samples is bounded. The local time zone is UTC.",
         bounded=True, bounds=["2 channel groups or 2 data groups, at most 3 samples (4 over an append)", "local time zone UTC"],
         contracts=[C("e2e3", "e2e3_values", ["measured", "two samples"], ("samples", 3)),
                    C("e2e3", "e2e3_groups", ["measured", "three samples"], ("samples", 4), ("subscription", 3), ("range", 2), cost=10),
                    C("e2e3", "e2e3_data_groups", ["measured", "three samples"], ("periodic", 2), ("samples", 4), cost=10),
                    C("e2e3", "e2e3_append", ["appended", "few"], ("reopen", 2))]),
    dict(id="P19", title="MDF3 configuration and record streams read back as they are stored",
         statement="Every header, data group, channel group, channel, conversion, trigger and program text that is written to an MDF3 file is read back with the same "
                   "names, types, numbers, texts and order, also after its counters are updated. For every MDF3 record stream, with no, leading or enclosing record ids, "
                   "reading delivers each record of the wanted range once, in order, and sample reductions give the stored mean, minimum and maximum. A range "
                   "text table gives the text of the range that holds the value.",
         over=["inputs", "configurations", "histories"],
         forall="all numeric field values, all texts of the lengths at the limits of their fields, all record bytes, any order of up to 3 records of 2 groups",
         why="Fixed size text fields, the split byte offset and the optional tail fields of MDF3 blocks fail only at particular sizes and values.",
         files=[SRC + "hd3block.cpp", SRC + "dg3block.cpp", SRC + "cg3block.cpp", SRC + "cn3block.cpp", SRC + "cc3block.cpp", SRC + "tr3block.cpp", SRC + "pr3block.cpp", SRC + "sr3block.cpp",
                SRC + "sr3block.h", SRC + "tx3block.cpp", SRC + "dt3block.cpp", SRC + "mdf3timestamp.cpp", SRC + "mdfblock.cpp", SRC + "dgrange.cpp"],
         mechanism="written and read by the real Write and Read functions over a byte-exact file model, or read from bytes built after the MDF3 standard; postcondition: equality",
         note="All field values; numbers of groups, entries and records and text lengths are case splits. The local time zone is UTC.",
         bounded=True, bounds=["up to 2 groups, 2 conversion entries (4 ranges), 3 records, 2 reduced samples", "local time zone UTC"],
         contracts=[C("blocks3", "b3_conversion", ["conversion", "two entries"]),
                    C("blocks3", "b3_channel", ["channel", "long name"], ("type", 11), cost=15),
                    C("blocks3", "b3_header", ["header", "two data groups"], ("field", 4), ("data groups", 3), cost=20),
                    C("blocks3", "b3_stream", ["nothing", "records", "reduced"], ("record ids", 3), cost=10),
                    C("blocks3", "b3_text_range", ["default", "range"])]),
    dict(id="P20", title="A finished bus log reads back every logged frame and event",
         statement="For every sequence of CAN, LIN, Ethernet, MOST and FlexRay messages handed to a bus logger or converter, each group of the finished file counts the messages logged "
                   "to it and a reader gets each message with its bus, payload and, for CAN, identifier, direction and checksum. "
                   "This holds whether payloads are stored as signal data, in a variable length group or in the record, compressed or not, wherever the work thread runs.",
         over=["inputs", "schedules", "configurations"],
         forall="all identifiers, payload bytes and checksums; all storage types and both writers; every order of frame kinds for 3 messages",
         why="Indexes from records into payload storage depend on all messages before; the tests log one fixed pattern and check counts.",
         files=[SRC + "mdfwriter.cpp", SRC + "writer4samplequeue.cpp", SRC + "convertersamplequeue.cpp", SRC + "cg4block.cpp", SRC + "cn4block.cpp", SRC + "dg4block.cpp", SRC + "canconfigadapter.cpp", SRC + "linconfigadapter.cpp",
                SRC + "ethconfigadapter.cpp", SRC + "mostconfigadapter.cpp", SRC + "flexrayconfigadapter.cpp", SRC + "canbusobserver.cpp", SRC + "mdfreader.cpp", SRC + "datablock.cpp"],
         mechanism="the real configuration, writer, reader and observers run on a byte-exact file model with symbolic messages",
         note="All message contents; the number of messages is bounded. zlib is a trusted inverse pair; threads run at the points the contract names.",
         bounded=True, bounds=["3 messages per log, payloads of 0 to 8 bytes", "zlib trusted as an inverse pair", "work thread runs at named points"],
         contracts=[C("e2e_bus", "e2e_can", ["variable length group", "in the record", "signal data"], ("storage", 3), ("compress", 2), ("writer", 2), cost=25),
                    C("e2e_bus", "e2e_events", ["variable length group", "in the record", "signal data"], ("bus", 4), ("storage", 3), ("pair", 2), cost=20)]),
]
NOT_APPLICABLE = [
    dict(id="N01", title="Samples may be saved while the work thread writes, without loss or race",
         statement="While a measurement runs, samples may be saved from the user's thread at any moment of the work thread's activity; none is lost, doubled or torn, and no deadlock occurs.",
         over=["schedules"], forall="all interleavings of the saving thread and the work thread",
         why="Tests run one schedule per run.", files=[SRC + "mdfwriter.cpp", SRC + "samplequeue.cpp", SRC + "writer4samplequeue.cpp", SRC + "convertersamplequeue.cpp"],
         mechanism="queue mutex and condition variable",
         reason="The verification-condition generator is sequential: it has no ownership or rely-guarantee logic for std::mutex, std::thread and std::condition_variable. "
                "P14, P15 and P20 quantify over the points at which the work thread runs as a whole, not over interleavings."),
    dict(id="N02", title="A file left by an interrupted measurement can still be read",
         statement="If the process dies during a measurement, the file left behind is marked unfinalized and a reader gets every sample that reached the disk, and no other.",
         over=["crash_points"], forall="all points at which writing can stop",
         why="No test interrupts a measurement.", files=[SRC + "idblock.cpp", SRC + "mdfwriter.cpp", SRC + "hd4block.cpp"],
         mechanism="unfinalized flags in the identification block",
         reason="What reaches the disk after a crash is decided by the C++ stream buffers and the operating system, which have no contract here; the file model is a byte array without a crash semantics."),
    dict(id="N03", title="XML metadata read back as they were set",
         statement="Properties, comments and hierarchical metadata set on a block are read back with the same names, values, types and structure.",
         over=["inputs"], forall="all texts and property trees", why="Tests use a few fixed documents.",
         files=[SRC + "imetadata.cpp", SRC + "ixmlfile.cpp", SRC + "expatxml.cpp", SRC + "md4block.cpp"],
         mechanism="XML written and parsed with expat",
         reason="Parsing is done by expat, a foreign library without contracts, through callbacks; a contract on it would have to be assumed and would then be the whole property."),
    dict(id="N04", title="An embedded attachment is extracted byte for byte",
         statement="A file attached to a measurement, compressed or not, is extracted with the same bytes, and its checksum is verified.",
         over=["inputs"], forall="all file contents", why="Tests attach one file.",
         files=[SRC + "at4block.cpp", SRC + "cryptoutil.cpp", SRC + "zlibutil.cpp"],
         mechanism="attachment block, MD5, deflate to and from FILE streams",
         reason="The code works on C FILE handles and operating system paths, and its compression is zlib itself; neither has a contract that could be discharged here."),
]
