package decl

//json:strict
//json:decode
type A struct {
	X int `json:"x"`
}

//json:decode
//json:strict
type B struct {
	X int `json:"x"`
}

// C is documented
//
//json:strict
//
// and here again
//json:json
type C struct {
	X string `json:"x"`
	Y []int  `json:"y"`
}

//json:json
//json:encode
//json:strict
type D struct {
	X string `json:"x"`
}

//json:
//json:strict
type E struct {
	X string `json:"x"`
}

//json:strict
// json:
type F struct {
	X string `json:"x"`
}

//	json:	strict	,	json
type G struct {
	X string `json:"x"`
}

//   json:Strict
type H struct {
	X string `json:"x"`
}

//json:json, strict, json
type I struct {
	X string `json:"x"`
	L []A1   `json:"l"`
	M map[string]A1 `json:"m"`
	P *A1    `json:"p"`
}

//json:strict
type A1 struct {
	X string `json:"x"`
}

// json:strict and more words
type J struct {
	X string `json:"x"`
}

//json:json
// strict
type K struct {
	X string `json:"x"`
}

//json:json
type (
	L struct {
		X string `json:"x"`
	}

	//json:strict
	M struct {
		X string `json:"x"`
	}
)

type (
	//json:json
	N struct {
		X string `json:"x"`
	}
	//json:strict
	O struct {
		X string `json:"x"`
	}
	P struct {
		X string `json:"x"`
	}
)
