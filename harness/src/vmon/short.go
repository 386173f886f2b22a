package main

// Scalars whose multiple of G (of H) has coordinates with leading zero bytes,
// found by search.
var shortG = []string{
	"e1b7a671feda7d42d4df64acca27dfc3cff9d2b9798f43a1ad64c723c730167f", // x 3, y 0 zero bytes
	"85bc835d354a59cf54d8c22faf5fcf1993981e70f4c4c680b7db9b71d32a7628", // x 3, y 0 zero bytes
	"6ad37a079369b0e66c21a26cfaeb86caa28a46ee493a6b468e9ed4013545a9df", // x 3, y 0 zero bytes
	"583aabc6958b86552782ee857691e7fc15fca4e34d0194d3e019feec4245cda6", // x 3, y 0 zero bytes
	"85bc835d354a59cf54d8c22faf5fcf1993981e70f4c4c680b7db9b71d3765e3a", // x 2, y 1 zero bytes
	"6ad37a079369b0e66c21a26cfaeb86caa28a46ee493a6b468e9ed40135191a08", // x 2, y 1 zero bytes
	"85bc835d354a59cf54d8c22faf5fcf1993981e70f4c4c680b7db9b71d32bd914", // x 1, y 2 zero bytes
	"6ad37a079369b0e66c21a26cfaeb86caa28a46ee493a6b468e9ed40135ad3adc", // x 1, y 2 zero bytes
	"e1b7a671feda7d42d4df64acca27dfc3cff9d2b9798f43a1ad64c723c75c3fdb", // x 0, y 3 zero bytes
	"85bc835d354a59cf54d8c22faf5fcf1993981e70f4c4c680b7db9b71d31cd42f", // x 0, y 3 zero bytes
	"583aabc6958b86552782ee857691e7fc15fca4e34d0194d3e019feec427c0d48", // x 0, y 3 zero bytes
	"e1b7a671feda7d42d4df64acca27dfc3cff9d2b9798f43a1ad64c723c674b3e2", // x 2, y 0 zero bytes
	"85bc835d354a59cf54d8c22faf5fcf1993981e70f4c4c680b7db9b71d2d04496", // x 2, y 0 zero bytes
	"6ad37a079369b0e66c21a26cfaeb86caa28a46ee493a6b468e9ed40135080497", // x 2, y 0 zero bytes
	"583aabc6958b86552782ee857691e7fc15fca4e34d0194d3e019feec422ddcc3", // x 2, y 0 zero bytes
	"e1b7a671feda7d42d4df64acca27dfc3cff9d2b9798f43a1ad64c723c6747966", // x 1, y 1 zero bytes
	"85bc835d354a59cf54d8c22faf5fcf1993981e70f4c4c680b7db9b71d2cdabe4", // x 1, y 1 zero bytes
	"6ad37a079369b0e66c21a26cfaeb86caa28a46ee493a6b468e9ed40135088131", // x 1, y 1 zero bytes
	"583aabc6958b86552782ee857691e7fc15fca4e34d0194d3e019feec422d8719", // x 1, y 1 zero bytes
	"e1b7a671feda7d42d4df64acca27dfc3cff9d2b9798f43a1ad64c723c675887f", // x 0, y 2 zero bytes
	"85bc835d354a59cf54d8c22faf5fcf1993981e70f4c4c680b7db9b71d2cd27d1", // x 0, y 2 zero bytes
	"6ad37a079369b0e66c21a26cfaeb86caa28a46ee493a6b468e9ed40135080994", // x 0, y 2 zero bytes
	"583aabc6958b86552782ee857691e7fc15fca4e34d0194d3e019feec422daf5e", // x 0, y 2 zero bytes
	"e1b7a671feda7d42d4df64acca27dfc3cff9d2b9798f43a1ad64c723c6746a6c", // x 1, y 0 zero bytes
	"85bc835d354a59cf54d8c22faf5fcf1993981e70f4c4c680b7db9b71d2cce800", // x 1, y 0 zero bytes
	"6ad37a079369b0e66c21a26cfaeb86caa28a46ee493a6b468e9ed4013507f088", // x 1, y 0 zero bytes
	"583aabc6958b86552782ee857691e7fc15fca4e34d0194d3e019feec422d7048", // x 1, y 0 zero bytes
	"e1b7a671feda7d42d4df64acca27dfc3cff9d2b9798f43a1ad64c723c6746cca", // x 0, y 1 zero bytes
	"85bc835d354a59cf54d8c22faf5fcf1993981e70f4c4c680b7db9b71d2cceb1d", // x 0, y 1 zero bytes
	"6ad37a079369b0e66c21a26cfaeb86caa28a46ee493a6b468e9ed4013507f02c", // x 0, y 1 zero bytes
	"583aabc6958b86552782ee857691e7fc15fca4e34d0194d3e019feec422d706d", // x 0, y 1 zero bytes
}

var shortH = []string{
	"830235318e8295dc036d65fb8a2a8ae3aa31bfb854854af70884917a3302b3fc", // x 3, y 0 zero bytes
	"3edf3c9a4c8cbbd97bcfd553fc9d035a1046cf469e616e027e4bb26e5785487",  // x 3, y 0 zero bytes
	"3edf3c9a4c8cbbd97bcfd553fc9d035a1046cf469e616e027e4bb26e5ed619d",  // x 2, y 1 zero bytes
	"e45bcd07c73c1a6191e570264427c410ed98627071f0acdf0916db1c170e8112", // x 1, y 2 zero bytes
	"830235318e8295dc036d65fb8a2a8ae3aa31bfb854854af70884917a331527f4", // x 1, y 2 zero bytes
	"3edf3c9a4c8cbbd97bcfd553fc9d035a1046cf469e616e027e4bb26e554872a",  // x 1, y 2 zero bytes
	"e45bcd07c73c1a6191e570264427c410ed98627071f0acdf0916db1c16dd597b", // x 0, y 3 zero bytes
	"c92265d5ddd1d51d4baba2a7a2732179ffe0a1dbcfc007c3f6b8451f497cc272", // x 0, y 3 zero bytes
	"830235318e8295dc036d65fb8a2a8ae3aa31bfb854854af70884917a32eedde7", // x 0, y 3 zero bytes
	"3edf3c9a4c8cbbd97bcfd553fc9d035a1046cf469e616e027e4bb26e56151b8",  // x 0, y 3 zero bytes
	"e45bcd07c73c1a6191e570264427c410ed98627071f0acdf0916db1c1635b14c", // x 2, y 0 zero bytes
	"c92265d5ddd1d51d4baba2a7a2732179ffe0a1dbcfc007c3f6b8451f4890afe5", // x 2, y 0 zero bytes
	"830235318e8295dc036d65fb8a2a8ae3aa31bfb854854af70884917a32927617", // x 2, y 0 zero bytes
	"3edf3c9a4c8cbbd97bcfd553fc9d035a1046cf469e616e027e4bb26e5435e84",  // x 2, y 0 zero bytes
	"e45bcd07c73c1a6191e570264427c410ed98627071f0acdf0916db1c16323d08", // x 1, y 1 zero bytes
	"c92265d5ddd1d51d4baba2a7a2732179ffe0a1dbcfc007c3f6b8451f488e4566", // x 1, y 1 zero bytes
	"830235318e8295dc036d65fb8a2a8ae3aa31bfb854854af70884917a32928ee5", // x 1, y 1 zero bytes
	"3edf3c9a4c8cbbd97bcfd553fc9d035a1046cf469e616e027e4bb26e5438995",  // x 1, y 1 zero bytes
	"e45bcd07c73c1a6191e570264427c410ed98627071f0acdf0916db1c16315eba", // x 0, y 2 zero bytes
	"c92265d5ddd1d51d4baba2a7a2732179ffe0a1dbcfc007c3f6b8451f488f285f", // x 0, y 2 zero bytes
	"830235318e8295dc036d65fb8a2a8ae3aa31bfb854854af70884917a329275ee", // x 0, y 2 zero bytes
	"3edf3c9a4c8cbbd97bcfd553fc9d035a1046cf469e616e027e4bb26e54596b1",  // x 0, y 2 zero bytes
	"e45bcd07c73c1a6191e570264427c410ed98627071f0acdf0916db1c16303982", // x 1, y 0 zero bytes
	"c92265d5ddd1d51d4baba2a7a2732179ffe0a1dbcfc007c3f6b8451f488e45cf", // x 1, y 0 zero bytes
	"830235318e8295dc036d65fb8a2a8ae3aa31bfb854854af70884917a32920c85", // x 1, y 0 zero bytes
	"3edf3c9a4c8cbbd97bcfd553fc9d035a1046cf469e616e027e4bb26e542aca9",  // x 1, y 0 zero bytes
	"e45bcd07c73c1a6191e570264427c410ed98627071f0acdf0916db1c16303966", // x 0, y 1 zero bytes
	"c92265d5ddd1d51d4baba2a7a2732179ffe0a1dbcfc007c3f6b8451f488e45b4", // x 0, y 1 zero bytes
	"830235318e8295dc036d65fb8a2a8ae3aa31bfb854854af70884917a32920d44", // x 0, y 1 zero bytes
	"3edf3c9a4c8cbbd97bcfd553fc9d035a1046cf469e616e027e4bb26e542ad9d",  // x 0, y 1 zero bytes
}
