//go:build go1.25

package c28

// The nonces of the tree's blocks, found by regenerate (PBT_FIXTURE=path).
var nonces = map[string]uint64{
	"a4":  3922585,
	"a5":  3421627,
	"a6":  825894,
	"a7":  26219890,
	"a8":  2214613,
	"b7":  20354119,
	"b8":  108443844,
	"b9":  36940214,
	"c11": 141895334,
	"c12": 30487278,
	"c13": 11067561,
	"c14": 6306712,
	"d2":  3512329,
	"d3":  1722121,
	"d4":  12093024,
	"d5":  49637935,
	"e1":  1280815,
	"e2":  45692261,
	"m1":  7536866,
	"m10": 8016600,
	"m11": 29404340,
	"m12": 2726946,
	"m2":  14057653,
	"m3":  7235277,
	"m4":  21413362,
	"m5":  30555713,
	"m6":  51000575,
	"m7":  5036992,
	"m8":  39123243,
	"m9":  12988135,
}
