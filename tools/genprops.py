#!/usr/bin/env python3
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))
p("C01","Parsing any byte string terminates without a panic",
 "For every byte string, of any length and content, parsing it as a tachograph file returns either a file or an error: it never panics, never indexes outside the input and never loops forever. The same holds for each exported per-structure decoder.",
 ["inputs"],"every byte string handed to the parser or to an exported decoder",
 "Tests parse a fixed set of real and hand-made records; truncation at each of the possible byte positions and every inconsistent embedded count cannot be enumerated.",
 ["unmarshal.go","internal/card/rawcardfile.go","internal/vu/raw_vehicle_unit_file.go","internal/dd/time_real.go"],
 [("file dispatch","unmarshal.go UnmarshalFile"),("card TLV split","internal/card/rawcardfile.go"),("VU segmentation","internal/vu/*.go sizeOf*"),("fixed-length guards","internal/dd/*.go Unmarshal*")])
p("C02","Raw card parsing partitions the input and marshals back to it",
 "A card file accepted by the raw card parser is split into consecutive records that tile it exactly: each record's tag, length and value are the bytes found at its place, and nothing is skipped, repeated or reordered. Marshalling the parsed raw file gives back the original bytes, and input that is not a whole number of records is rejected.",
 ["inputs"],"every byte string, hence every sequence of records of every length 0..65535",
 "Tests use a few card dumps with EFs of ordinary sizes; the property ranges over every sequence of tag/length/value records including zero-length and maximum-length values.",
 ["internal/card/rawcardfile.go","marshal.go"],
 [("split function","internal/card/rawcardfile.go scanCardFile"),("record decode","internal/card/rawcardfile.go unmarshalRawCardFileRecord"),("record encode","internal/card/rawcardfile.go MarshalRawCardFile")])
p("C03","VU file segmentation tiles the input by each transfer's own layout",
 "When a vehicle-unit file is accepted by the raw parser, its records tile the file exactly: each starts with its two-byte tag, and its length is the one its own layout and embedded counts give in the regulation, so value bytes concatenate back to the input. Truncated transfers and unknown tags are rejected with an error.",
 ["inputs"],"every byte string, hence all sequences of transfers and all embedded record counts and sizes",
 "No running test covers vehicle-unit parsing; embedded counts make the set of well-formed layouts unbounded.",
 ["internal/vu/raw_vehicle_unit_file.go","internal/vu/overview_gen1.go","internal/vu/activities.go"],
 [("segmentation loop","internal/vu/raw_vehicle_unit_file.go"),("size functions","internal/vu/*.go sizeOf*"),("record-array size","internal/vu sizeOfRecordArray")])
p("C04","Every well-formed VU transfer is accepted, with its bytes preserved",
 "A transfer that the segmentation accepts is accepted by its decoder, whatever its record counts, provided the card numbers it holds are of a driver, workshop, control or company card and its card slots are 0 or 1; it lands in the list of its own kind and generation in file order, and the file's generation and version follow from its transfers. The decoded transfer keeps the exact value bytes it was decoded from, and a first-generation transfer keeps its trailing 128-byte signature.",
 ["inputs"],"every well-formed sequence of transfers of one generation, with any record counts",
 "No running test covers vehicle-unit parsing; record counts are unbounded.",
 ["internal/vu/vehicle_unit_file.go","internal/vu/activities_gen2_v1.go","internal/vu/events_faults_gen2_v1.go","internal/vu/technical_data_gen2_v1.go"],
 [("generation dispatch","internal/vu/vehicle_unit_file.go"),("per-transfer decoders","internal/vu/*_gen*.go unmarshal*")])
p("C05","Fixed-size structures decode per the regulation's byte layout",
 "For every byte string of the layout's length, decoding a data-dictionary structure sets each field to the value the regulation's offset, width, byte order and bit position give; every other length is an error. Undefined enumeration codes are kept as unrecognised together with the original code.",
 ["inputs"],"every byte string of every length, for each data-dictionary structure",
 "Table tests sample a few dozen byte patterns of up to 2^1000 per structure; a swapped field or a wrong mask on untested bits passes them.",
 ["internal/dd/place_record.go","internal/dd/controltype.go","internal/dd/activity_change_info.go","internal/dd/extended_serial_number.go"],
 [("decoders","internal/dd/*.go Unmarshal*")])
p("C06","Decode then encode gives back the same bytes for every structure",
 "For every byte string that a data-dictionary decoder accepts, encoding the decoded value reproduces those bytes exactly, including reserved bits and undefined codes, when raw data is preserved. Structures whose encoder is canonical reproduce the bytes for every canonical input.",
 ["inputs"],"every byte string accepted by the decoder of each data-dictionary structure",
 "Round-trip tests use sampled values; reserved bits, undefined enum codes and unusual paddings are outside them.",
 ["internal/dd/place_record.go","internal/dd/string_value.go","internal/dd/activity_change_info.go"],
 [("encoders","internal/dd/*.go Append*/Marshal*"),("raw painting","internal/dd/*.go raw_data canvas")])
p("C07","Encoders only append, exactly their layout's length, and do not mutate",
 "Appending an encoded structure to a buffer leaves the bytes already in the buffer unchanged and adds exactly the layout's number of bytes whenever no error is returned (for strings: the length the message declares). The message being encoded, including its preserved raw bytes, is not modified.",
 ["inputs"],"every prefix buffer, every spare capacity and every message the decoder can produce",
 "Tests append to an empty buffer and compare only the produced bytes.",
 ["internal/dd/place_record.go","internal/dd/time_real.go","internal/card/places.go"],
 [("encoders","internal/dd/*.go Append*")])
p("C08","Enumeration codes map both ways without loss or collision",
 "For every enumeration with protocol codes, decoding a defined code gives its enumerator and encoding that enumerator gives the code back, no two enumerators share a code, and every undefined code is reported as an error or as unrecognised rather than aliased to another value.",
 ["inputs"],"every code 0..255 of every enumeration and every enumerator",
 "Tests check a few codes of a few enumerations.",
 ["internal/dd/enum.go"],
 [("table lookup","internal/dd/enum.go UnmarshalEnum/MarshalEnum")])
p("C09","Card record lists are sliced at the right positions",
 "In every elementary file made of repeated fixed-size records, record k of the decoded list comes from the bytes at header + k x record size, the number of records is what the file length gives, in file order, and header pointers are read from their own offset; a length that does not fit the layout is an error.",
 ["inputs"],"every elementary-file content of every length",
 "Tests decode a few sample EFs; wrong strides or dropped last records on other lengths are unseen.",
 ["internal/card/places.go","internal/card/events.go","internal/card/vehicles_used.go","internal/card/gnss_places.go"],
 [("record splitting","internal/card/*.go split*/unmarshal*")])
p("C10","Card elementary files survive decode and encode unchanged",
 "For every content a card elementary-file decoder accepts with raw data preserved, encoding the decoded file reproduces the content byte for byte.",
 ["inputs"],"every accepted elementary-file content",
 "Tests round-trip a handful of dumps.",
 ["internal/card/ic.go","internal/card/icc.go","internal/card/identification.go","internal/card/application_identification.go","internal/card/control_activity.go"],
 [("EF codecs","internal/card/*.go unmarshal*/append*")])
p("C11","The cyclic driver-activity buffer is walked inside its bounds",
 "For every pointer pair and every buffer content, decoding the cyclic driver activity follows the record chain backwards with wrap-around, reads only bytes inside the buffer, visits each record at most once and terminates; with no error, encoding the result gives back the same bytes.",
 ["inputs"],"every buffer size, content, oldest and newest pointer",
 "Tests hold a handful of ring buffers; wrap-around position, chain shape and pointer values are unbounded.",
 ["internal/card/activity.go"],
 [("cyclic iterator","internal/card/activity.go")])
p("C12","Signature checks succeed only for authentic certificates and data",
 "Verifying a certificate or signed data returns no error exactly when the recovered or supplied signature satisfies every check of its scheme - header, trailer, hash over exactly the certified bytes and issuer reference - under the issuer's public key. The stored validity flag says the same as the returned error, and malformed keys or signatures give an error, not a panic.",
 ["inputs"],"every certificate content, issuer key, data and signature",
 "Tests check a few genuine certificates and a few corruptions; each check that is skipped only matters for forgeries nobody has sampled.",
 ["internal/security/rsa_verify.go","internal/security/ecc_verify.go"],
 [("RSA recovery","internal/security/rsa_verify.go"),("ECDSA","internal/security/ecc_verify.go")])
p("C13","A driver card verifies only through its complete chain to the root",
 "Card verification returns no error only if every certificate present is verified against the issuer named in it and that issuer's certificate is itself verified up to the trusted root, in each generation present. A missing certificate, an issuer that cannot be resolved or any failed check is an error.",
 ["inputs","fault_sequences"],"every combination of present and missing certificates and every outcome of resolver and signature checks",
 "No running test covers the chain walk; outcomes combine across generations.",
 ["verify.go","internal/card/driver_card_file.go","internal/security/root_certificate.go"],
 [("chain walk","internal/card verify functions"),("root","internal/security/root_certificate.go")])
p("C14","Certificate resolution returns the certificate that was asked for",
 "Resolving a certificate by its authority reference tries the configured sources in order and returns the first that has it; a source that fails or lacks it does not hide a later one, and when none has it an error naming every failure is returned. Identifiers are formatted as the fixed-width reference the sources use.",
 ["inputs","fault_sequences"],"every reference and every combination of source outcomes",
 "No running test covers the resolver chain.",
 ["cert.go","internal/cert/chain.go","internal/cert/embedded.go","internal/cert/client.go"],
 [("chain resolver","internal/cert")])
p("C15","Parsed values never change after parsing and inputs are not modified",
 "Parsing does not write to the caller's input, and every byte a parsed message holds equals the input bytes it was read from at the time the call returns, however long the file: no parsed record shares memory with a buffer that later parsing overwrites.",
 ["inputs","histories"],"every input and all lengths beyond internal buffer sizes",
 "Sample EFs are smaller than the internal scan buffer, so buffer reuse never shows in tests.",
 ["internal/card/events.go","internal/card/faults.go","internal/card/vehicle_units_used.go","internal/card/gnss_places.go"],
 [("scanner tokens","internal/card/*.go bufio.Scanner loops")])
p("C16","File type is recognised and dispatched by its leading bytes alone",
 "A file is treated as a card file or as a vehicle-unit file exactly according to its leading tag, every other input is an error, and the file's declared type matches the payload it carries. Marshalling and verification act on the payload of that type only and reject unsupported types with an error.",
 ["inputs"],"every byte string and every file message",
 "No running test covers the top-level API.",
 ["unmarshal.go","marshal.go","verify.go"],
 [("dispatch","unmarshal.go"),("marshal dispatch","marshal.go"),("verify dispatch","verify.go")])
p("C17","Driver-card assembly stores each file under its own type and generation",
 "Assembling a driver card from raw records puts each elementary file's content in the field of its own type and generation, attaches each signature record to the file it follows, and reports an error for a content its decoder rejects. No record's content or signature is attributed to another file.",
 ["inputs"],"every sequence of raw records with every tag, appendix and order",
 "Only a few whole-card dumps exist.",
 ["internal/card/driver_card_file.go","internal/card/infer.go"],
 [("assembly","internal/card/driver_card_file.go unmarshalDriverCardFile")])
p("C18","Numeric and date encodings are exact inverses over their range",
 "Time stamps, odometer values, 24-bit coordinates, BCD dates and month/year values decode to the number their bytes denote and encode back to the same bytes over the complete range of the format; a time stamp, coordinate, BCD number or date outside the range of its format is rejected with an error, not silently truncated.",
 ["inputs"],"every representable byte pattern and every value of the source integer type",
 "Tests take boundary samples only.",
 ["internal/dd/time_real.go","internal/dd/odometer.go","internal/dd/bcd.go","internal/dd/date.go","internal/dd/month_year.go","internal/dd/geo_coordinates.go"],
 [("numeric codecs","internal/dd")])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
