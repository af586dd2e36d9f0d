# Contracts of the built-in comparators (common_api.go).
#
# strord, byteord and timeord name the natural order of strings (bytewise), byte slices (bytewise) and
# instants as real numbers; strings.Compare, bytes.Compare and the time.Time methods are assumed to follow it.
# Integers are machine integers with wrap-around, compared as mathematical integers in the contract.

ghostfunc strord(Str) -> Real
ghostfunc byteord(Bytes) -> Real
ghostfunc timeord(Time) -> Real
axiom strings(a: Str, b: Str): iff(a == b, strord(a) == strord(b))

func CompareInt
  ensures refused: iff(err != 0, not (is_box('int', key1) and is_box('int', key2)))
  ensures less: imp(err == 0, iff(result < 0, unbox('int', key1) < unbox('int', key2)))
  ensures equal: imp(err == 0, iff(result == 0, unbox('int', key1) == unbox('int', key2)))
  ensures greater: imp(err == 0, iff(result > 0, unbox('int', key1) > unbox('int', key2)))

func CompareUint16
  ensures refused: iff(err != 0, not (is_box('uint16', key1) and is_box('uint16', key2)))
  ensures less: imp(err == 0, iff(result < 0, unbox('uint16', key1) < unbox('uint16', key2)))
  ensures equal: imp(err == 0, iff(result == 0, unbox('uint16', key1) == unbox('uint16', key2)))
  ensures greater: imp(err == 0, iff(result > 0, unbox('uint16', key1) > unbox('uint16', key2)))

func CompareUint32
  ensures refused: iff(err != 0, not (is_box('uint32', key1) and is_box('uint32', key2)))
  ensures less: imp(err == 0, iff(result < 0, unbox('uint32', key1) < unbox('uint32', key2)))
  ensures equal: imp(err == 0, iff(result == 0, unbox('uint32', key1) == unbox('uint32', key2)))
  ensures greater: imp(err == 0, iff(result > 0, unbox('uint32', key1) > unbox('uint32', key2)))

func CompareUint64
  ensures refused: iff(err != 0, not (is_box('uint64', key1) and is_box('uint64', key2)))
  ensures less: imp(err == 0, iff(result < 0, unbox('uint64', key1) < unbox('uint64', key2)))
  ensures equal: imp(err == 0, iff(result == 0, unbox('uint64', key1) == unbox('uint64', key2)))
  ensures greater: imp(err == 0, iff(result > 0, unbox('uint64', key1) > unbox('uint64', key2)))

func CompareString
  ensures refused: iff(err != 0, not (is_box('string', key1) and is_box('string', key2)))
  ensures less: imp(err == 0, iff(result < 0, strord(unbox('string', key1)) < strord(unbox('string', key2))))
  ensures equal: imp(err == 0, iff(result == 0, strord(unbox('string', key1)) == strord(unbox('string', key2))))
  ensures greater: imp(err == 0, iff(result > 0, strord(unbox('string', key1)) > strord(unbox('string', key2))))

func CompareByteSlice
  ensures refused: iff(err != 0, not (is_box('[]byte', key1) and is_box('[]byte', key2)))
  ensures less: imp(err == 0, iff(result < 0, byteord(unbox('[]byte', key1)) < byteord(unbox('[]byte', key2))))
  ensures equal: imp(err == 0, iff(result == 0, byteord(unbox('[]byte', key1)) == byteord(unbox('[]byte', key2))))
  ensures greater: imp(err == 0, iff(result > 0, byteord(unbox('[]byte', key1)) > byteord(unbox('[]byte', key2))))

func CompareTime
  ensures refused: iff(err != 0, not (is_box('time.Time', key1) and is_box('time.Time', key2)))
  ensures less: imp(err == 0, iff(result < 0, timeord(unbox('time.Time', key1)) < timeord(unbox('time.Time', key2))))
  ensures equal: imp(err == 0, iff(result == 0, timeord(unbox('time.Time', key1)) == timeord(unbox('time.Time', key2))))
  ensures greater: imp(err == 0, iff(result > 0, timeord(unbox('time.Time', key1)) > timeord(unbox('time.Time', key2))))
