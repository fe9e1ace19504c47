package decl

//json:json
type (
	A struct {
		X int `json:"x"`
	}
	B struct {
		Y string `json:"y"`
		A A      `json:"a"`
	}
)

type (
	// C is documented.
	//json:strict
	C struct {
		Z bool `json:"z"`
	}
	// D has no codec.
	D struct {
		Z bool `json:"z"`
	}
	// E is a list.
	//
	// json: strict
	E []string
)

// F is documented at length.
//
// json:strict
//
// More text.
type F struct {
	C C  `json:"c"`
	P *C `json:"p"`
}

/* json:json */
type plain struct {
	Q int `json:"q"`
}
