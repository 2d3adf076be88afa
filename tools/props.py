PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, observe, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why,
                      files=files.split(), mech=mech, observe=observe, note=note, **kw))

P("C01", "Checked integer arithmetic is exact or reports the overflow direction",
  "Adding, subtracting or multiplying two integers of any width either stores the exact mathematical result and reports no error, or reports an error. The error says overflow exactly when the true result is above the largest value of the type and underflow exactly when it is below the smallest.",
  "inputs", "every pair of operands of each of the ten built-in integer types, for addition, subtraction and multiplication",
  "The tests sample a few operand pairs per width; the boundary cases are specific combinations of sign and magnitude (for instance the minimum value as subtrahend) out of up to 2^128 pairs.",
  "math/math.go conv/conv.go",
  [("signed addition", "math/math.go AddInt"), ("unsigned addition", "math/math.go AddUint"), ("signed subtraction", "math/math.go SubInt"), ("unsigned subtraction", "math/math.go SubUint"), ("multiplication", "math/math.go Mul")],
  ["the returned error", "the value stored through the second argument"],
  "All operands of all ten integer types; no bound. math/big operations are assumed contracts (exact integers).")
P("C02", "Division rounds half away from zero and reports unrepresentable quotients",
  "Dividing two integers of any built-in type yields the exact quotient rounded to the nearest integer, ties away from zero; dividing by zero and a quotient the type cannot represent are reported as errors. Arbitrary-precision integers round the same way, arbitrary-precision rationals divide exactly, the destination may be absent or may be either operand, and an operand that is not the destination is never changed.",
  "inputs", "every dividend and divisor (zero included) of each of the ten built-in integer types and of arbitrary-precision integers and rationals, with every aliasing of the destination",
  "Rounding depends on the parity of the divisor, the signs and the exact remainder; tests try a few small operands and miss quotients between -1 and 0, ties and aliasing.",
  "math/math.go conv/conv.go",
  [("division of built-in integers", "math/math.go Div"), ("division of big numbers", "math/math.go DivBigOps")],
  ["the returned error", "the quotient stored through the last argument", "the operands after the call"],
  "All inputs of the ten integer types, *big.Int and *big.Rat with aliasing; division of floats is the machine operation and is not under contract. math/big operations are assumed contracts.")
P("C03", "Magnitude, comparison, minimum and maximum agree with the natural order",
  "For every built-in ordered type, comparison is negative, positive or zero exactly when the first value is smaller, larger or neither, and minimum and maximum of two values other than NaN return one of the two, not larger (smaller) than either; complex numbers are ordered by their modulus. The magnitude operation returns the exact magnitude, and reports an error exactly when a built-in integer type cannot represent it. The minimum and maximum of types that supply their own comparison obey that comparison.",
  "inputs", "every pair of values of each built-in integer, float and string type (comparisons with NaN included), every value for magnitude, and every pair of values of a user-supplied comparable type",
  "A comparison can be wrong for a narrow set of operand pairs (extreme values, equal values, NaN) that sampled tests do not include.",
  "math/math.go",
  [("comparison", "math/math.go CmpOrdered"), ("min/max", "math/math.go MinOrdered MaxOrdered MinCmp MaxCmp"), ("magnitude", "math/math.go Abs")],
  ["returned values and errors"],
  "All values of the built-in types, *big.Int, *big.Rat and a representative comparable struct type; string order is lexicographic byte order as the verifier models it.")
P("C04", "A bounded range never holds a value outside its bounds",
  "Constructing a range panics exactly when the bounds are out of order or the initial value is outside them. A later assignment is accepted exactly when the value satisfies both bounds, open or closed as configured; a rejected assignment reports an error and leaves the value unchanged. After any sequence of assignments the value is the last accepted one and inside the bounds, and the bounds are the ones given at construction.",
  "inputs histories", "every bound, mode and initial value of each integer and float type, and every finite sequence of assignments",
  "The guarantee is an invariant over arbitrary assignment histories and all bound/mode combinations; tests try a handful of single assignments.",
  "math/range.go",
  [("construction", "math/range.go OfRange"), ("assignment", "math/range.go SetValue")],
  ["panics", "the returned error", "the value and bounds read back"],
  "All inputs; histories of any length by a loop invariant proved inductive. Formatting of the error text is an assumed contract.")
P("C09", "Converting between built-in numeric types is exact or reports an error",
  "Converting a number of any built-in integer or float type, or a type based on one, to any other stores exactly the same value without error when the target type has that value, and otherwise reports an error and leaves the target as it was. The one exception is from 64 bit to 32 bit floats, which rounds to the nearest value and reports an error only outside the range of a 32 bit float. The result is the same when the type of the source is only known at run time, and the panicking variants panic exactly when an error would be reported.",
  "inputs", "every value of each of the twelve built-in integer and float types (NaN and infinities included), every pair of source and target types, static or run time source types",
  "144 pairs of types with up to 2^64 values each; the failing inputs are isolated values at the edges of the ranges and integers of more than 24 or 53 bits that a float cannot hold, which the tests do not include.",
  "conv/conv.go conv/int.go conv/float.go conv/bigrat.go",
  [("dispatch on the types", "conv/conv.go To AnyTo"), ("integer conversions", "conv/int.go"), ("float conversions", "conv/float.go")],
  ["the returned error", "the value stored through the second argument", "panics"],
  "All values; type pairs enumerated. Reflection, fmt and math/big are assumed contracts; out-of-range float to integer machine conversions are modelled as on amd64.")
P("C10", "Converting to and from arbitrary-precision numbers is exact or reports an error",
  "Converting a built-in number to an arbitrary-precision integer, rational or float stores exactly the same value, or reports an error when the target type does not have it. Converting an arbitrary-precision number to a built-in type or another arbitrary-precision type does the same (a rational to an arbitrary-precision float excepted), where a 32 bit float target may be reached by rounding a 64 bit float. Converting leaves the source unchanged, and a result that shares no storage with it: changing one later does not change the other.",
  "inputs", "every arbitrary-precision integer of up to a million digits, rational and float, every value of the twelve built-in numeric types, and every pair of source and target types",
  "The values that fail have more digits than the tests use (over 10, 15 or 19), and sharing of storage shows only when a result is changed afterwards.",
  "conv/conv.go conv/bigint.go conv/bigrat.go conv/bigfloat.go conv/int.go conv/float.go",
  [("dispatch on the types", "conv/conv.go To AnyTo ToBigOps"), ("conversions to big types", "conv/bigint.go conv/bigrat.go conv/bigfloat.go"), ("conversions from big types", "conv/int.go conv/float.go")],
  ["the returned error", "the value stored through the second argument", "the source after the result is changed"],
  "All values; type pairs enumerated. The methods of math/big are assumed contracts (exact integers and rationals; floats as a rational value with a precision).")
P("C11", "Integers and rationals survive conversion to text and back",
  "Every built-in integer, arbitrary-precision integer and rational converts to text without error, and converting that text to the same type gives the same value. The text of an integer converts to any integer type without error exactly when that type has the value, and then to exactly that value; it also converts exactly to arbitrary-precision integers, rationals and floats. Text converts to text unchanged.",
  "inputs", "every value of the ten integer types, every arbitrary-precision integer of up to a million digits, every rational, every text, and each integer target type",
  "Round trips of values with many digits or at the edge of the range of the target are not sampled by the tests.",
  "conv/conv.go conv/string.go conv/int.go conv/bigint.go conv/bigrat.go conv/bigfloat.go",
  [("to text", "conv/string.go"), ("from text", "conv/int.go StringToInt64 StringToUint64, conv/bigint.go StringToBigInt, conv/bigrat.go StringToBigRat, conv/bigfloat.go StringToBigFloat"), ("dispatch on the types", "conv/conv.go To AnyTo ToBigOps")],
  ["the text produced", "the returned error", "the value stored through the second argument"],
  "All values. strconv and math/big formatting and parsing are assumed contracts (parsing is the inverse of formatting; parsing reports an error outside the range).")
P("C12", "Slice operations return exactly the specified elements",
  "Copying, indexing from either end with a default, reversing, flattening, removing the first or all occurrences of a value, adding a value and collecting values yield exactly the specified elements in the specified order for slices of any length, and leave the argument alone unless the operation is documented to work in place. Every sort operation permutes the slice, in place, into an order that its comparison agrees with.",
  "inputs", "every slice of any length, index, value and (for sorting) consistent comparison",
  "Slices of every length with repeated, missing and extreme elements cannot be enumerated; aliasing of the argument and incomparable or equal elements only show in combinations the tests do not use.",
  "funcs/funcs.go",
  [("slices", "funcs/funcs.go SliceAdd SliceCopy SliceIndex SliceOf SliceRemove SliceRemoveUncomparable SliceReverse SliceFlatten"), ("sorting", "funcs/funcs.go SliceSortOrdered SliceSortComplex SliceSortCmp SliceSortBy")],
  ["the returned slice", "the argument after the call"],
  "Slices of any length, of int, string, pointers and others as representatives of type parameters. sort.Slice is an assumed contract (its comparison is proved to be a strict weak order); flattening of several dimensions is bounded to 2 slices of 2 elements.")
P("C13", "Map operations change exactly the given keys",
  "Setting, testing, unsetting and reading a key of a map, or of a map of maps, and adding to or removing from the slice of a key, have exactly the specified effect on that key and none on any other; missing or nil maps are created where a value is set. The keys of a map, the map of the elements of a slice and the distinct elements of a slice contain every such element and no other, each once; sorting a map yields every key with its value, once, in the order of the comparison, and leaves the map alone.",
  "inputs", "every map and slice of any size, every key and value, and (for sorting) consistent comparison",
  "Frame conditions (no other key changes) quantify over all keys; tests use maps of one or two keys.",
  "funcs/funcs.go",
  [("maps", "funcs/funcs.go MapIndex MapSet MapTest MapUnset MapSliceAdd MapSliceRemove MapSliceRemoveUncomparable MapKeysToSlice"), ("maps of maps", "funcs/funcs.go Map2Set Map2Test Map2Unset Map2SliceAdd Map2SliceRemove Map2SliceRemoveUncomparable"), ("sets", "funcs/funcs.go SliceToMap SliceToMapBy SliceUniqueValues"), ("sorting", "funcs/funcs.go MapSortOrdered MapSortCmp MapSortBy")],
  ["the map after the call, at the key and at an arbitrary other key", "the returned slices"],
  "Maps of any size with int or string keys; maps of maps are bounded to two outer keys. Iteration order of a map is arbitrary.")
P("C14", "A slice of pairs in key order works as a sorted map",
  "Searching a slice of pairs in strictly ascending key order finds a key exactly if it is there, and otherwise the position after which it belongs (or the first, if it is smaller than all others). Adding a value, removing a key and removing the first or all occurrences of a value of a key keep the keys in strictly ascending order, have the specified effect on that key, and do not change any other key or its values.",
  "inputs", "every slice of pairs in key order of any length, with any number of values per key, and every key and value",
  "A binary search is wrong only for particular lengths and positions; the tests use at most four keys.",
  "funcs/funcs.go",
  [("search", "funcs/funcs.go OrderedTuple2Search"), ("changes", "funcs/funcs.go OrderedTuple2SliceAdd OrderedTuple2SliceRemoveKey OrderedTuple2SliceRemoveValue")],
  ["the returned position", "the slice after the call"],
  "Slices of any length, int and string keys, int values.")
P("C15", "Filters, compositions and suppliers mean what they say",
  "A conjunction, disjunction or negation of filters, and every comparison, membership and sign filter, is true for exactly the specified values, and conjunction and disjunction call no filter after the one that decides. A composition applies its functions in order, each to the result of the one before; a conditional yields the value, or calls only the function, of the branch that applies. A caching supplier calls the function it caches at most once, and not before it is needed.",
  "inputs histories", "every number of filters and functions, every value (NaN included), and every number of calls of a supplier",
  "The guarantees quantify over arbitrary functions and numbers of functions, and over arbitrarily many calls.",
  "funcs/funcs.go",
  [("filters", "funcs/funcs.go And Or Not LessThan LessThanEqual Equal In GreaterThan GreaterThanEqual IsNegative IsNonNegative IsPositive"), ("composition", "funcs/funcs.go Compose Compose2 to Compose10"), ("conditionals", "funcs/funcs.go Ternary TernaryResult"), ("suppliers", "funcs/funcs.go SupplierOf SupplierCached")],
  ["results", "calls of the functions passed"],
  "Any number of filters and functions; the functions are arbitrary deterministic functions. Representative types int, uint8, float64, string.")
P("C16", "Assertions and conversions of dynamic values are all or nothing",
  "Asserting the type of a value, and converting a slice or map of dynamic values to a slice or map of one type, yields exactly the values in the same places, or reports an error and yields nothing if any of them is of another type. The variants and checks that panic (on an error, a nil or zero value, an empty slice, or a type that is never nil) panic exactly in that case, with the error, and otherwise return their arguments. A guarded call runs the function and every closer once, the closers in reverse order, and passes the last panic value to the handler exactly if anything panicked.",
  "inputs fault_sequences", "every dynamic value, slice and map of dynamic values, and every combination of panics of a function and up to three closers",
  "A single element of the wrong type in any place, and combinations of panicking functions and closers, are too many to sample.",
  "funcs/funcs.go",
  [("conversion", "funcs/funcs.go AssertType ConvertToSlice ConvertToSlice2 ConvertToMap and their Must variants"), ("checks", "funcs/funcs.go Must MustValue MustValue2 MustValue3 MustNonNilValue MustNonZero MustNonEmptySlice IsNil IsNonNil IsNilValue"), ("guarded calls", "funcs/funcs.go TryTo")],
  ["results and errors", "panics and their values", "the order of calls"],
  "Slices and maps of any size for conversion (errors of maps are proved for one key); guarded calls are bounded to 3 closers.")
P("C17", "An iterator provides exactly its values in order, then its error forever",
  "Iterating a value, any values, a slice, a map, an iterating function, a replaced error or a concatenation of iterators provides exactly the specified values in order (each key of a map once with its value), then the zero value with the error that ends it, on that and every later call; the iterating function is not called again after that. A value put back at any time, even after the end, is what is provided next, the last one first. Infinite and Fibonacci series provide every element of the series.",
  "inputs histories", "every slice, map and iterating function of any length with any final error, and every sequence of any number of reads and values put back",
  "Sequences of operations of any length, continuing after the end, are histories that the tests do not enumerate.",
  "iter/iter.go iter/gen.go",
  [("iterator", "iter/iter.go IterImpl.Next IterImpl.Unread OfIter SetError Concat"), ("generators", "iter/gen.go SliceIterGen MapIterGen NoValueIterGen SingleValueIterGen InfiniteIterGen FibonnaciIterGen ConcatIterGen")],
  ["values and errors of every call", "calls of the iterating function"],
  "Histories of any length; int and string elements. Concatenation is bounded to 3 iterators, infinite series to 3 initial values. Map iteration via reflection is an assumed contract.")
P("C18", "Reading bytes, characters, lines or records loses and makes up nothing",
  "Iterating a reader as bytes provides exactly the bytes it reads, however it divides them over reads, then its error (the end of iteration for the end of the input, after closing a reader that can be closed). Iterating a reader or string as characters provides exactly the characters of valid UTF-8, and an error at the first invalid encoding. Iterating as lines provides exactly the texts between line ends (line feed, carriage return, or both), without an empty last line, and an error of the reader instead of an incomplete line; iterating as comma-separated records provides exactly the records parsed; every error is repeated.",
  "inputs fault_sequences", "every input of any length, divided over reads in any way, ending in any error at any point (with or without the last bytes)",
  "Every division of the input over reads, every code point and ill-formed encoding and every place of an error is beyond what tests sample.",
  "iter/gen.go iter/iter.go",
  [("bytes", "iter/gen.go ReaderIterGen"), ("characters", "iter/gen.go ReaderAsRunesIterGen StringAsRunesIterGen, iter/iter.go OfStringAsRunes"), ("lines", "iter/gen.go readLines ReaderAsLinesIterGen StringAsLinesIterGen"), ("records", "iter/gen.go CSVIterGen, iter/iter.go OfCSV")],
  ["values and errors of every call", "whether the reader was closed"],
  "Input of any length; readers return no two empty reads in a row; strings converted to characters at once are bounded to 4 bytes. io.ReadFull, strings.Reader and unicode/utf8 are verified with their source, strings.Builder and the parser of encoding/csv are assumed contracts; a record is compared until the next one is read, as documented.")
P("C19", "A union, optional value or result holds exactly one of its members",
  "After any sequence of assignments, a union of two, three or four types has selected exactly the member set last, reading that member gives the value set, reading another member panics, and its text is the text of that member. An optional value is present exactly after a value that is not nil was set last (by construction, assignment, or the first element of a slice), and gives that value, or otherwise the panic, error or alternative asked for; the assignment that reports an error does so exactly if a value was present. A result has either a value or an error, given back as is, and constructing it panics exactly for a nil error, or for an error together with a non-zero value.",
  "inputs histories", "every sequence of any number of assignments of any values (nil included) to unions, optional values and results",
  "The member selected after an arbitrary sequence of assignments, and values that are nil in other ways than the untyped nil, are not sampled by the tests.",
  "union/union.go",
  [("unions", "union/union.go Two Three Four"), ("optional values", "union/union.go Maybe First"), ("results", "union/union.go Result")],
  ["member selected and values read back", "panics and errors", "text"],
  "Histories of any length; member types int, string, *int, float64, slices, maps, errors. The text of a value as formatted by package fmt is an assumed contract.")
P("C20", "An event reaches every registered receiver once per registration, in order",
  "An event sent to a registry is processed by every registered receiver, once for each time it is registered, in the order of their ids, and in order of registration for the same id; each receives what the one before returned, and the last value is the result. Removing a receiver from an id removes its first registration, or all if asked for, and removing an id removes all of its receivers; other registrations stay as they are. With nothing registered the result is the value sent.",
  "inputs histories", "every sequence of up to three registrations with any ids followed by one removal or registration and an event, for two receivers",
  "The order of the calls depends on the order of the ids and the history of registrations and removals, combinations the tests do not enumerate.",
  "event/event.go funcs/funcs.go",
  [("registry", "event/event.go Registry Register Remove RemoveId Send"), ("ordered storage", "funcs/funcs.go OrderedTuple2SliceAdd OrderedTuple2SliceRemoveUncomparable")],
  ["the order of calls", "values passed and returned"],
  "Bounded: 3 registrations, one more operation, 2 receivers; any ids and values. Formatting a pointer as text is an assumed contract (injective).")
P("C21", "A request is dispatched to the first handler that matches method and path",
  "A request is served by the handler added first of those with its method and a pattern that matches its path, called once with the response, the request and the matching parts of the path; no other handler is called. If there is none, the status is 405 if the pattern of a handler for another method matches the path, and otherwise 404. Adding a handler fails exactly if the method or pattern is empty, the pattern is invalid, or there is no handler.",
  "inputs", "every sequence of up to three handlers with any methods and patterns, and every request method and path",
  "Which handler is first, and which status results, depends on the order and overlap of patterns that tests sample only for a few.",
  "rest/rest.go",
  [("adding handlers", "rest/rest.go Handle MustHandle"), ("dispatch", "rest/rest.go ServeHTTP")],
  ["handlers called and their arguments", "status of the response", "errors and panics"],
  "Bounded: 3 handlers; any methods, patterns and paths. Regular expressions (an arbitrary function of pattern and path) and net/http.Error are assumed contracts; the text and headers of error responses are not claimed.")
P("C22", "Writers write every value in order and report the first failure",
  "Writing values to a slice, a map or an output of bytes (as bytes, characters, strings or lines, a line being ended as the system does) writes every value completely and in order, and reports an error exactly at the first value that is not written completely, which is the error of the output if it has one; nothing is written after it. The reader (writer) made to fail provides (accepts) exactly the bytes it is made for, as many at a time as asked for, and then its error forever.",
  "inputs fault_sequences", "every sequence of values, and every output that fails or writes only a part at any point, and every sequence of any number of reads (writes) of any sizes",
  "A failure or partial write at any point of any sequence of values, and buffers of all sizes in sequence, are too many to sample.",
  "io/io.go io/writer/gen.go io/writer/writer.go",
  [("writers", "io/writer/writer.go WriterImpl.Write, io/writer/gen.go"), ("failing reader and writer", "io/io.go ErrorReader ErrorWriter")],
  ["bytes and values written", "errors returned"],
  "Values and histories of any length; the texts of errors are not claimed. Writers follow the documentation of io.Writer (a count from 0 to the length).")
P("C23", "Stream transforms give exactly the right values, in order, lazily",
  "Mapping (with or without errors), filtering, peeking, skipping, limiting, keeping only distinct or only duplicate values, and expanding slices or maps each give exactly the values due, in the order of the source (map entries in any order, each once), and then the error of the source or of the mapping function. No more values of the source are read than are needed for the values asked for, each function is applied once per value read, and state starts afresh exactly for another source.",
  "inputs histories", "every sequence of source values, ended by every error, every function given, and every number of reads before and after the end",
  "State kept from read to read (counts, sets, partly read slices) has to be right after histories of any length, with errors at any point.",
  "stream/stream.go iter/iter.go",
  [("element transforms", "stream/stream.go Map MapError Filter Peek"), ("stateful transforms", "stream/stream.go Skip Limit Distinct Duplicate Generator"), ("expansion", "stream/stream.go ExpandSlices ExpandMaps")],
  ["values and errors returned by each read", "values read from the source", "calls of the functions given"],
  "Unbounded sequences and reads; expanding is bounded to 3 slices (any lengths) or 2 maps (any sizes), applying a generated function to 4 applications.")
P("C24", "Stream reductions and sorts account for every value exactly once",
  "Reductions combine all values in order, from the identity or the first value, into a single result: totals, counts, slices (new or given), maps, smallest and largest values, and whether all, any or none of the values match, the latter without reading more once the answer is known. Reversing and sorting give every value as often as the source did, in the opposite order or in ascending order. An error of the source is passed on in place of a result, and after the result comes the end.",
  "inputs", "every sequence of source values, ended by every error, every combining, matching and ordering function",
  "A value dropped, doubled or compared wrongly shows only for some sequences and positions of errors; tests use a few short sequences.",
  "stream/stream.go funcs/slices.go",
  [("reductions", "stream/stream.go Reduce ReduceTo ReduceToBool Count ReduceToSlice ReduceIntoSlice ReduceToMap"), ("matching", "stream/stream.go AllMatch AnyMatch NoneMatch"), ("extremes", "stream/stream.go Max Min MaxCmp MinCmp"), ("reordering", "stream/stream.go Reverse SortOrdered SortComplex SortCmp SortBy")],
  ["the value and error returned by each read", "values read from the source"],
  "Unbounded sequences; sorting complex numbers is bounded to 3 values. The sorting functions of the standard library are assumed contracts, whose requirement on the order is an obligation.")
P("C25", "Stream sums, averages and magnitudes are exact or rounded once",
  "The sum of a stream of numbers adds all of them up, without changing the big numbers given; the average of integers is the exact average rounded half away from zero, with an error exactly when the running total leaves the range of the type; the average of big rational numbers is exact, that of big integers is rounded half away from zero. Magnitudes are exact, with an error for the integer that has none. No values give no result, and an error of the source is passed on.",
  "inputs", "every sequence of numbers of each integer type and of big integers and rationals, ended by every error",
  "Overflow of a running total and rounding of halves of either sign depend on the whole sequence.",
  "stream/stream.go math/math.go",
  [("averages", "stream/stream.go AvgInt AvgUint AvgBigOps"), ("sums", "stream/stream.go Sum SumBigOps"), ("magnitudes", "stream/stream.go Abs AbsBigOps")],
  ["the value and error returned by each read"],
  "Unbounded sequences. math/big is an assumed contract; big floating point numbers and the text of errors are not claimed.")
P("C26", "Parallel stream processing equals sequential processing, without data races",
  "Processing the values of a stream in parallel with a transform that makes one value of each gives what processing them one after the other gives, in the same order, whatever the number of threads or items per thread asked for (also none, or out of range). If the transform fails for some values there are no values and the error is that of the first of them; an error of the source is passed on. The threads have no data races and are waited for, under every schedule.",
  "inputs schedules", "every stream of up to 9 values (5 with failing transforms), every transform of one value each, every number of threads or items, every schedule",
  "Splitting, ordering and waiting have to be right for every number of values, every split and every interleaving; tests observe a few runs.",
  "stream/stream.go",
  [("splitting and joining", "stream/stream.go Parallel generateRanges")],
  ["values and errors returned by each read", "memory accessed by each thread"],
  "Bounded in the number of values (9, or 5 with errors); all values, all numbers of threads, and all schedules by disjoint footprints.")
P("C05", "Decimals keep 18 digits and survive text conversion both ways",
  "A decimal is constructed from a value and a number of decimals without error exactly when there are at most 18 decimals and the value has at most 18 digits, and holds exactly that number, without trailing zeros after the point unless asked to keep them. Its text is the exact number with its sign and all its decimals, and reading that text gives the same value and number of decimals again. Text is accepted exactly when it is an optional minus sign followed by 1 to 18 digits with an optional point among, before or after them (a lone zero before the point need not count); precision, sign, negation and whether the magnitude is below one follow the value.",
  "inputs", "every 64 bit value, every number of decimals, normalized or not, and every text",
  "There are 2^64 values at 19 scales each and arbitrary texts; the failing cases are texts with specific extra characters and numbers with specific counts of zeros, which the tests sample only a few of.",
  "math/decimal.go conv/int.go conv/string.go",
  [("construction", "math/decimal.go OfDecimal MustDecimal Normalize"), ("text", "math/decimal.go String StringToDecimal MustStringToDecimal"), ("accessors", "math/decimal.go Precision Scale Normalized Sign Negate MagnitudeLessThanOne")],
  ["the returned error or panic", "the text", "value, scale, sign and precision read back"],
  "All values, scales and texts. Regular expressions, strings and strconv are assumed contracts (the pattern in the source is parsed and matched exactly).")
P("C06", "Comparing decimals orders them by numeric value",
  "Comparing two decimals is negative, zero or positive exactly when the first number is smaller than, equal to or larger than the second, whatever their signs, numbers of digits and numbers of decimals (trailing zeros included).",
  "inputs", "pairs of decimals of either sign with 1, 2, 9, 17 or 18 digits and 0, 1, 2, 9, 17 or 18 decimals, all values of those shapes",
  "Comparison goes by way of aligned text; a fault shows only for certain combinations of sign, digit count and scale, of which the tests include a few dozen pairs.",
  "math/decimal.go math/math.go",
  [("comparison", "math/decimal.go Cmp"), ("alignment", "math/decimal.go AdjustDecimalFormat")],
  ["the result of the comparison"],
  "Bounded in the shapes (digits 1,2,9,17,18 and decimals 0,1,2,9,17,18 of each operand); all values within a shape.")
P("C07", "Adding and subtracting decimals is exact, or rounds once as documented",
  "Adding or subtracting two decimals gives the exact sum or difference whenever the operand with fewer decimals can be given the decimals of the other within 18 digits, with an error exactly when the result then has more than 18 digits. Otherwise the other operand is rounded half away from zero to the fewer decimals first, and there is an error only if the result does not fit in 18 digits or an operand is within 5 units of the 18 digit limit. The operands are never changed.",
  "inputs", "every pair of decimals, of every value and number of decimals, normalized or not",
  "Whether digits are padded, rounded or rejected depends on the exact magnitudes against powers of ten for each difference of scales, out of 2^128 pairs.",
  "math/decimal.go",
  [("alignment of scales", "math/decimal.go AdjustDecimalScale MustAdjustDecimalScale"), ("addition and subtraction", "math/decimal.go Add Sub MustAdd MustSub addDecimal")],
  ["the returned error or panic", "the number returned", "the decimals of the result"],
  "All values and all scales; no bound. fmt is an assumed contract.")
P("C08", "Multiplying and dividing decimals rounds half away from zero exactly once",
  "Multiplication gives the exact product rounded once, half away from zero, to as many decimals (at most 18) as 18 digits allow, with an error exactly when the rounded integer part has more than 18 digits. Division gives the exact quotient, or the quotient rounded half away from zero to 18 digits or 18 decimals; dividing by zero is an error, and other errors occur only for quotients of more than 18 integer digits or divisors of 18 digits. Dividing by an unsigned integer is an error exactly when it is zero or larger than the integer part of the dividend, otherwise quotient times divisor plus remainder is the dividend, with a remainder of the sign of the dividend and smaller in units than the divisor; spreading it gives that many values, larger magnitudes first, that differ by at most one unit and add up to the dividend.",
  "inputs", "every pair of decimals, normalized or not, and every decimal with every unsigned 64 bit divisor (spreading: divisors up to 2^40)",
  "Rounding and overflow depend on up to 36 digit intermediate products and on digit by digit long division; the tests compute some twenty products and quotients.",
  "math/decimal.go",
  [("multiplication", "math/decimal.go Mul MustMul"), ("division", "math/decimal.go Div MustDiv"), ("division by integers", "math/decimal.go DivIntQuoRem DivIntAdd MustDivIntQuoRem MustDivIntAdd")],
  ["the returned error or panic", "the number returned", "the number of decimals of the result"],
  "All values and scales; the loop of the long division by an invariant proved inductive. math/big is an assumed contract.")
P("C27", "JSON values hold exactly what they are made of, and only valid JSON",
  "A JSON value made of a string, a bool, a number of any type, a number text, nil, or nested maps and slices of these has the type that goes with it and gives back the same content, by the typed accessors (which panic exactly for the wrong type) as well as converted back to plain Go values. A number is accepted exactly when it has a text that is a valid JSON number, so NaN, infinities and malformed number texts are errors. A value of a type that JSON cannot have, at any depth, is an error, never a panic or some other value.",
  "inputs", "every value of every scalar type, number texts of up to 7 bytes, arrays and objects of up to 2 elements nested 2 deep",
  "Accepting one invalid number text or one infinite float makes every document that has it invalid; the texts and nestings that matter are rare among the inputs and hardly sampled by tests.",
  "encoding/json/value.go",
  [("making values", "encoding/json/value.go ToValue MapToValue SliceToValue StringToValue NumberToValue BoolToValue"), ("accessors", "encoding/json/value.go AsMap AsSlice AsString AsNumber AsBool IsNull ToAny ToMap ToSlice IsDocument Type")],
  ["the returned error or panic", "the type and content of the value"],
  "All values of the scalar types; number texts of up to 7 bytes and nesting of 2 levels are bounded. Regular expressions are decided from the pattern in the source; strconv and math/big are assumed contracts.")
P("C28", "Writing JSON gives a valid text of the value, or the error of the writer",
  "What is written of a value is valid JSON of it: strings and keys are quoted with everything escaped that must be so that they read as the same characters, numbers have their own text, and the elements of arrays are in order and objects have all pairs once, separated by commas. If the writer has an error at any time, that error is returned and nothing is written after it.",
  "inputs fault_sequences", "strings of up to 2 bytes or any one character, arrays of up to 3 and objects of up to 2 elements with nesting, errors of the writer at any call",
  "A single unescaped character, or separator lost for some shape, makes the output unreadable, for strings and shapes that tests do not have.",
  "encoding/json/write/write.go",
  [("scalars", "encoding/json/write/write.go Write"), ("arrays and objects", "encoding/json/write/write.go WriteArray WriteObject")],
  ["the runes written", "the returned error", "the calls of the writer"],
  "Bounded in the length of strings and the shape of values; all characters, all orders of the keys, an error at every call.")
P("C29", "JSON strings, numbers and literals are read exactly as the JSON grammar says",
  "Numbers, strings and the words true, false and null are accepted exactly when the JSON grammar allows them, and have the value it says: number texts are kept as they are, escapes of all kinds stand for their characters, and two escapes of a surrogate pair for one character. Half of a surrogate pair, control characters in strings, incomplete or unknown escapes, malformed numbers and other characters are errors; white space between tokens does not matter.",
  "inputs", "number texts of up to 6 characters, strings of up to 2 ASCII characters or any one character or escape, words of up to 6 letters, any one ASCII character",
  "The lexer is a hand written state machine that fails for specific characters in specific states, such as a zero after a minus sign or an escaped quote; tests try one text for most of its branches.",
  "encoding/json/parse/lex.go",
  [("numbers", "encoding/json/parse/lex.go lexNumber"), ("strings", "encoding/json/parse/lex.go lexString"), ("words, white space and other characters", "encoding/json/parse/lex.go lexBooleanNull lex")],
  ["the returned error", "the value parsed"],
  "Bounded in the length of the text; all characters. Reached through parsing of an array of one element.")
P("C30", "JSON documents are parsed exactly when well formed, into the value they describe",
  "A text is parsed without error exactly when it begins with a complete JSON array or object in which no key occurs twice, and the value then has exactly the elements and keys of the text; anything else is an error with an invalid value. Iterating over a document gives the elements of the array one by one, or the object, and then the end if the document is well formed and an error if not. An error of the reader before the document is complete is passed on.",
  "inputs fault_sequences", "all sequences of up to 6 tokens (8 inside an object), with the reader ending or failing after them, and one document with a failure at any place",
  "Misplaced or missing commas, colons, brackets and values combine with nesting in ways the tests have one example each of, and the parser must reject every one of them.",
  "encoding/json/parse/parse.go",
  [("objects and arrays", "encoding/json/parse/parse.go parseObject parseArray parseValue"), ("documents", "encoding/json/parse/parse.go Parse Iterate")],
  ["the returned error", "the value parsed", "the values iterated over"],
  "Bounded in the number of tokens; all sequences of the 11 kinds of tokens within that.")
P("C31", "JSON paths find exactly the element they describe",
  "A path is accepted exactly when it is one or more object keys after a dot and array indexes in brackets. Applied to a value it gives the element reached by these keys and indexes in turn, and an error exactly when there is no such element or something is not an object or array where it has to be.",
  "inputs", "all paths of up to 6 or 7 characters of an alphabet of 8, applied to three documents with nested arrays and objects of arbitrary strings",
  "Which paths are malformed and which elements are missing depends on every character of the path and on each level of the value; tests look up a handful of paths.",
  "encoding/json/search.go",
  [("paths", "encoding/json/search.go ParsePath parsePath"), ("search", "encoding/json/search.go lookupsToFunc")],
  ["the returned error", "the value found"],
  "Bounded in the length of the path and the shapes of the documents. Regular expressions on known texts are those of the Go library.")
