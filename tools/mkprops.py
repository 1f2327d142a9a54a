#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the statements are easy to review and edit).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Opening any bytes as a compound file never crashes or hangs",
"For every byte sequence presented as a compound (OLE2) file, opening it and opening any of its streams terminates and either succeeds or returns an error. No corrupt header, table, sector chain, directory entry or size field can make it panic, index outside the file, or loop forever.",
["inputs"],"all byte strings presented as a compound file, all stream names asked for",
"The tests open a handful of well-formed files; a crash needs a specific corrupt or cyclic table, and termination over all chains is a universal claim.",
["xls/cfb/cfb.go","xls/cfb/interface.go"],[("header/FAT/DIFAT/miniFAT loading","xls/cfb/cfb.go load"),("directory loading","xls/cfb/cfb.go buildDirs"),("sector chain walking","xls/cfb/cfb.go getStreamReader, getMiniStreamReader"),("stream lookup","xls/cfb/interface.go Open, List")])
p("C02","A compound-file stream is delivered with exactly its stored bytes",
"Reading a stream of a compound file yields the bytes of its sector chain, in chain order, cut to the stream's declared size; streams below the cutoff size are taken from the mini stream in 64-byte mini sectors. A chain that ends before the declared size gives an error, never wrong or missing data.",
["inputs"],"all documents (sector sizes 512 and 4096), all chains, all sizes, both allocation kinds",
"The samples have short contiguous chains; fragmented chains, multi-sector tables and boundary sizes are not sampled.",
["xls/cfb/cfb.go","xls/cfb/interface.go","xls/cfb/slicereader.go"],[("regular stream assembly","xls/cfb/cfb.go getStreamReader"),("mini stream assembly","xls/cfb/cfb.go getMiniStreamReader"),("cutoff decision","xls/cfb/interface.go Open")])
p("C03","The sliced stream reader behaves as one contiguous seekable byte stream",
"A reader over a list of byte blocks behaves exactly like a reader over their concatenation: each read returns the bytes at the current position and advances by the count, end of data is reported only at the end, and each seek moves to the position asked for (start, current or end relative) and reports it. No sequence of reads and seeks, and no division into blocks including empty blocks, makes it panic or loop.",
["inputs","histories"],"all block lists, all interleavings of reads and seeks, all buffer sizes and offsets",
"One test walks one fixed block list; block-boundary positions, empty blocks and seek orders are unbounded.",
["xls/cfb/slicereader.go"],[("Read","xls/cfb/slicereader.go Read"),("Seek","xls/cfb/slicereader.go Seek")],[("position","block index and offset in block","xls/cfb/slicereader.go SliceReader.Index, Offset")])
p("C04","Opening any workbook stream of a legacy spreadsheet never crashes or hangs",
"For every workbook stream content (any record types, lengths and nesting, encrypted or not), opening the workbook terminates and returns a workbook or an error. No truncated, oversized or misordered record can cause a panic.",
["inputs"],"all byte strings as workbook stream",
"Tests open well-formed files only.",
["xls/xls.go","xls/records.go","xls/strings.go","xls/structs.go","xls/crypto/crypto.go","xls/crypto/rc4.go"],[("record splitting","xls/xls.go nextRecord, loadFromStream2"),("workbook globals","xls/xls.go loadFromStream2 and record readers in xls/records.go"),("strings","xls/strings.go"),("decryption pass","xls/xls.go loadFromStreamWithDecryptor")])
p("C05","Reading any sheet of an opened legacy spreadsheet never crashes or hangs",
"For every opened legacy workbook and every sheet of it, extracting the sheet terminates and yields a table or an error whatever the sheet's record contents are: bad indexes, short records, reversed ranges, malformed hyperlinks and inconsistent dimensions included.",
["inputs"],"all record sequences of a sheet substream",
"Tests read well-formed sheets only.",
["xls/sheets.go","xls/hyperlinks.go","xls/strings.go"],[("sheet building","xls/sheets.go parseSheet"),("hyperlink decoding","xls/hyperlinks.go"),("merged cells","xls/sheets.go parseSheet")])
p("C06","Opening and reading any XML spreadsheet package never crashes",
"For every set of package parts (relationships, workbook, styles, shared strings, sheets) with arbitrary XML content, opening the package and extracting its sheets returns a result or an error. Missing attributes, out-of-range indexes, malformed references and empty elements never cause a panic.",
["inputs"],"all XML token sequences in every part",
"Tests open well-formed packages only.",
["xlsx/xlsx.go","xlsx/workbook.go","xlsx/sheets.go","xlsx/types.go"],[("part parsing","xlsx/workbook.go"),("sheet parsing","xlsx/sheets.go parseSheet"),("reference parsing","xlsx/types.go")])
p("C07","Extracted tables and cell formatting never crash",
"Building a table through its public operations (put, set, set link, resize), iterating it, and asking for strings, types, formats, values or scanning into variables never panics for any cell values of the builtin types (truth values, numbers, texts and timestamps), positions (including negative ones and gaps), format codes or call order after a row is selected. Rendering any such value under any number format always returns a string.",
["inputs","histories"],"all sequences of table operations and all values and formats",
"Tests call a few formatters on sample numbers; out-of-order, sparse and negative positions are not sampled.",
["commonxl/sheet.go","commonxl/cell.go","commonxl/fmt.go","commonxl/formats.go","commonxl/numbers.go"],[("grid operations","commonxl/sheet.go"),("cell operations","commonxl/cell.go"),("format application","commonxl/formats.go Apply")])
p("C08","Decryption applies the per-block keystream independent of chunking",
"Decrypting a protected workbook stream XORs each byte with the keystream byte determined only by its position: the stream is divided in 1024-byte blocks, block n uses the cipher keyed from the password digest and n, and the byte offset inside the block selects the keystream byte. The result is the same however the ciphertext is split into writes, and record headers and the records that are stored in the clear keep their original bytes.",
["inputs","histories"],"all ciphertexts, all ways of splitting it into writes, all positions",
"No test file is encrypted; block-boundary-crossing writes are not sampled.",
["xls/crypto/rc4.go","xls/crypto/crypto.go","xls/xls.go"],[("block rekeying","xls/crypto/rc4.go Write, SetPassword, startBlock"),("clear-record restore","xls/xls.go loadFromStreamWithDecryptor")])
p("C09","The workbook stream is split into exactly its records",
"A workbook stream is divided into consecutive records, each consisting of a 4-byte header (type, length) and exactly length bytes of content, with no byte skipped, duplicated or reinterpreted; every record is assigned to the substream of the begin/end markers that enclose it, in order.",
["inputs"],"all workbook streams, all record lengths from 0 to 65535",
"Tests have a few streams with usual record sizes.",
["xls/xls.go"],[("record reading","xls/xls.go nextRecord"),("substream grouping","xls/xls.go loadFromStream2")])
p("C10","Legacy-format strings decode to exactly the stored text",
"Every stored string (8-bit or 16-bit, short or long length prefix, with or without rich-text and phonetic data, or split at any point over continuation records with or without a width change) decodes to exactly the stored characters. The reported end of the string is exactly where the next item starts, so following strings are unaffected.",
["inputs"],"all strings, all flags, all split points across continuation records",
"Sample files hold few strings; splits at each character position and width switches are not sampled.",
["xls/strings.go"],[("short/long strings","xls/strings.go decodeShortXLUnicodeString, decodeXLUnicodeString, decodeXLUnicodeRichExtendedString"),("shared string table","xls/strings.go parseSST")])
p("C11","Compressed numbers decode to exactly the stored value",
"Every 32-bit compressed number (integer or truncated floating point, optionally divided by 100) decodes to the number the format defines for it, both when it is shown as text and when it is taken as a number; integers keep their sign and full 30-bit range.",
["inputs"],"all 2^32 encodings",
"Samples contain a few encodings of the 2^32.",
["xls/structs.go"],[("number decoding","xls/structs.go RKNumber.IsInteger, Int, Float64, String")])
p("C12","Every cell record of a legacy sheet lands at its own position with its value",
"Each cell record of a sheet (blank, label, shared-string, boolean, error, number, compressed number and their multi-cell forms, formula results) produces its value and number format in exactly the row and column the record states, and no other cell is given a value by it; multi-cell records fill consecutive columns in order. Later records win over earlier ones for the same position.",
["inputs"],"all cell records: all rows, columns, values, format indexes and column counts",
"Samples exercise a few record kinds at small positions.",
["xls/sheets.go","xls/structs.go"],[("cell record dispatch","xls/sheets.go parseSheet")])
p("C13","Merged areas keep the anchor value and mark only the covered cells",
"In both spreadsheet formats, for every merged area the top-left cell keeps its value, every other cell inside the area becomes a continuation marker (column continuation or last column in the first row, row continuation or last row in the lower rows), and no cell outside the area is changed.",
["inputs"],"all merged rectangles, any number per record or sheet",
"Samples contain one or two merged areas.",
["xls/sheets.go","xlsx/sheets.go"],[("legacy merge loop","xls/sheets.go parseSheet"),("package merge loop","xlsx/sheets.go parseSheet")])
p("C14","Cell references map exactly to rows and columns",
"Every well-formed cell reference maps to the row and column it denotes (A is 0, Z is 25, AA is 26, and so on with bijective base 26; row numbers are one-based), absolute markers do not change the result, and malformed references are rejected instead of being mapped to some cell.",
["inputs"],"all reference strings",
"Samples only use small references.",
["xlsx/types.go"],[("reference conversion","xlsx/types.go refToIndexes")])
p("C15","XML spreadsheet cells take the value their type attribute and text define",
"In an XML spreadsheet each cell element produces its value at the position its reference denotes: shared-string cells the referenced string, inline and formula-string cells their own text, booleans, errors and numbers by their own rules, with the number format selected by the cell's style. Values of neighbouring cells never leak into each other, and an index outside the shared tables never selects a wrong entry.",
["inputs"],"all cell elements, types, styles and shared tables",
"Samples contain a few type and style combinations.",
["xlsx/sheets.go","xlsx/workbook.go"],[("cell parsing","xlsx/sheets.go parseSheet"),("style table","xlsx/workbook.go parseStyles"),("shared strings","xlsx/workbook.go parseSharedStrings")])
p("C16","A cell's reported type always matches the value it carries",
"For every value and number format, the cell built from it carries a value whose dynamic type is the one its reported cell type announces: integers for integer cells, floating-point for float cells, text for string and error cells, booleans for boolean cells, timestamps for date cells, nothing for blank cells. Conversions that cannot be done keep the original value and type.",
["inputs"],"all values of all supported dynamic types, all requested types, both epochs, and all format numbers",
"Tests check formatting of a few numbers, never the type/value pairing.",
["commonxl/cell.go"],[("cell construction","commonxl/cell.go NewCell, NewCellWithType, SetFormatNumber")])
p("C17","Text cells come out unchanged whatever number format is applied",
"A cell whose stored value is text yields exactly that text, for every number format attached to it, including numeric, percent, fraction, date and custom formats and every format number that is unknown.",
["inputs"],"all strings, all format numbers and all custom formats",
"Tests only format numbers, booleans and dates.",
["commonxl/cell.go","commonxl/fmt.go","commonxl/formats.go"],[("cell construction","commonxl/cell.go NewCellWithType"),("format application","commonxl/formats.go Apply"),("formatters","commonxl/fmt.go")])
p("C18","A table stores each put value at its position and changes nothing else",
"Putting a value at a row and column makes exactly that cell hold the value and format, growing the table as needed; every other cell keeps what it had and cells never written are blank. The table stays rectangular: every row has exactly the table's column count.",
["inputs","histories"],"all sequences of put, set, link and resize operations",
"Tests build tables only through whole files.",
["commonxl/sheet.go"],[("Put/Set/SetURL/Resize","commonxl/sheet.go")],[("grid","rows of cells with row and column counts","commonxl/sheet.go Sheet.Rows, NumRows, NumCols")])
p("C19","Iterating a table visits every row exactly once in order",
"Iterating a table from its start delivers each row exactly once, in order, then stops and stays stopped; for each row the strings, types, formats and values reported have one entry per column and belong to the cells of that row. Reporting a row changes neither the table nor the position.",
["inputs","histories"],"all table sizes, all interleavings of next and row queries",
"Tests iterate a few tables.",
["commonxl/sheet.go"],[("Next/Strings/Types/Formats/Raw","commonxl/sheet.go")])
p("C20","Scanning a row only stores values of matching types",
"Scanning the current row into variables stores each column's value only into a destination of a matching type, assigns the value of the column with the same index, and reports an error instead of storing anything else when the kind of destination or the value does not match or there are more destinations than columns.",
["inputs"],"all rows, all argument lists",
"No test calls scan.",
["commonxl/sheet.go"],[("Scan","commonxl/sheet.go Scan")])
p("C21","Digit grouping and negative brackets never change the digits",
"Adding thousands separators inserts a comma before every complete group of three integer digits counted from the right and changes no other character, keeping sign and fraction; bracketing of negative numbers replaces the leading minus with enclosing parentheses and leaves every other text unchanged.",
["inputs"],"all digit strings, all lengths and signs",
"The tests sample a few numbers.",
["commonxl/fmt.go"],[("addCommas, addNegParens","commonxl/fmt.go")])
p("C22","Serial dates convert to the right calendar day and time in both epochs",
"For every serial day number, the converted timestamp lies exactly that many days after 30 December 1899 (1900 system; this accounts for the format's fictitious leap day from 1 March 1900 on) or after 1 January 1904 (1904 system), and the fractional part gives the time of day, rounded to the millisecond. The epoch used is the one the formatter was set to.",
["inputs","configurations"],"all serial numbers representable, both epochs",
"Tests sample few dates, all in the 1900 system.",
["commonxl/dates.go","xls/xls.go","xlsx/workbook.go"],[("date conversion","commonxl/dates.go ConvertToDate"),("epoch flag","xls/xls.go loadFromStream2, xlsx/workbook.go parseWorkbook")])
p("C23","Opening a file tries readers in priority order and keeps errors truthful",
"Opening a file returns the result of the first registered reader, in priority order, that accepts the file, falls through only when a reader reports the file is not in its format, returns any other error, and reports an unknown format only when no reader accepts. Wrapped errors match both the reason and the cause.",
["inputs","configurations"],"all registrations and all combinations of reader outcomes",
"Tests call single readers directly.",
["grate.go","errs.go"],[("Open, Register","grate.go"),("WrapErr","errs.go")])
p("C24","Sheet listing and retrieval by name are consistent",
"The visible listing and the hidden listing together contain each sheet of the workbook exactly once, in workbook order, split by the stored visibility; asking for any listed name yields that very sheet's content, and asking for an unlisted name yields an error.",
["inputs"],"all workbooks, all visibility states and all names asked for",
"Samples contain one or two sheets, all visible.",
["xls/xls.go","xls/sheets.go","xlsx/sheets.go","xlsx/xlsx.go"],[("listings","xls/sheets.go List, ListHidden; xlsx/sheets.go List, ListHidden"),("lookup","xls/sheets.go Get; xlsx/sheets.go Get")])
p("C25","Delimited text files come out row by row unchanged",
"A tab-separated file that is accepted is delivered with each non-empty line as one row in order and each tab-separated field as one string, unchanged; a comma-separated file with its parsed fields likewise. Iteration delivers each row once.",
["inputs"],"all text contents",
"No test opens delimited files through the readers.",
["simple/tsv.go","simple/csv.go","simple/simple.go"],[("readers","simple/tsv.go, simple/csv.go"),("iteration","simple/simple.go")])
p("C26","Cell equality is symmetric and ordering never contradicts itself",
"Comparing two cells for equality gives the same answer in both orders, every cell equals itself unless it holds not-a-number, and no two cells are each less than the other.",
["inputs"],"all pairs of cells of all types",
"No test compares cells.",
["commonxl/cell.go"],[("Equal, Less","commonxl/cell.go")])
p("C27","Fractions stay within their digit limits and approximate the value",
"Rendering a number as a fraction with a given number of digits gives a whole part plus a numerator and denominator that both stay within that many digits, numerator not exceeding denominator, for every finite non-negative number and 1 to 15 digits.",
["inputs"],"all finite numbers and digit limits",
"Tests sample a few decimals.",
["commonxl/numbers.go","commonxl/fmt.go"],[("DecimalToFraction","commonxl/numbers.go")])
p("C28","Opened documents do not share mutable state",
"Opening, reading and closing one document never changes package-level state or the content delivered for another document, and the delivered bytes of one stream are never altered by reading another.",
["histories"],"all interleavings of operations on distinct documents",
"Tests open one document at a time.",
["xls/xls.go","xls/cfb/cfb.go","xlsx/xlsx.go","commonxl/cell.go"],[("frame of every operation: no package-level writes","all packages")])
p("C29","The command-line extractor writes every sheet once and finishes",
"The batch extractor processes each file argument exactly once with its worker pool, writes one output per sheet and terminates, for every number of files and processors and every worker interleaving.",
["schedules","inputs"],"all worker interleavings and file lists",
"No test runs the command.",
["cmd/grate2tsv/main.go"],[("worker pool","cmd/grate2tsv/main.go main, runProcessor")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
