package main

// rareSeeds are arguments of rareInst.
var rareSeeds = map[string][]uint64{
	kGSPFS: {80556, 152490, 184305, 326898},
	kEquiv: {87402, 110233, 142028, 188818},
	kCons:  {7853, 28743, 30067, 36374, 46627, 195787},
	kDisj:  {19934, 27635, 44258, 59766, 64312, 111180, 113239, 275668},
	kABC:   {457, 724, 1923, 3485, 12445, 26949, 36633, 44237, 51408, 88153, 117056, 129901},
	kIneq:  {3661, 26258, 43459, 47866, 48624, 58244, 65080, 68927, 72908, 81736, 85405, 93866, 134078, 170082, 220328, 229940, 260489, 264889},
}

// rareK are scalars k for which the hash of k*H starts with one to three zero bytes.
var rareK = []string{
	"61207374617274696e6720706f696e7420666f72207468697320736561726467", // 1
	"61207374617274696e6720706f696e7420666f72207468697320736561726515", // 1
	"61207374617274696e6720706f696e7420666f7220746869732073656172656c", // 1
	"61207374617274696e6720706f696e7420666f7220746869732073656173d728", // 2
	"61207374617274696e6720706f696e7420666f72207468697320736561757a52", // 2
	"61207374617274696e6720706f696e7420666f7220746869732073656175ca91", // 2
	"61207374617274696e6720706f696e7420666f72207468697320736561f3bd3c", // 3
	"61207374617274696e6720706f696e7420666f7220746869732073656232d668", // 3
}

// rareMsgs are numbers i for which the signature of "message i" by rareKey has
// short numbers.
var rareMsgs = []int{17345, 31951, 32592, 86832, 115806, 116345, 239649, 262442, 309443}

const rareKey = 0xabcdef
