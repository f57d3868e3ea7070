package sp

// Types that contain themselves without a pointer to, slice of or map of
// structs in between are not supported.
type (
	BadSl     []BadSl
	BadMap    map[string]BadMap
	BadPtr    *BadPtr
	BadArr    [2]*BadArr
	BadSlSl   [][]BadSlSl
	BadMapSl  map[int][]BadMapSl
	BadPtrSl  *[]BadPtrSl
	BadStruct struct {
		A int
		X *[2]BadStruct
	}
	BadStSl struct {
		X [][1]BadStSl
		B string
	}
	BadMutA []BadMutB
	BadMutB map[string]BadMutA
)

// Embedding.
type (
	embUnexp struct{ A, B int }
	EmbExp   struct {
		C string
		D []int
	}
	EmbScalar int
	EmbOne    struct {
		embUnexp
		X int
	}
	EmbTwo struct {
		*EmbExp
		EmbScalar
		X map[string]int
	}
	EmbThree struct {
		EmbExp
		EmbOne
		UJ
		any
	}
	EmbIface struct {
		error
		X int
	}
	EmbRec struct {
		*EmbRec
		X int
	}
)
