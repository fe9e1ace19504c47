package r19

//json:json
type With_Under struct {
	Meta  map[string]NU8   `json:"data-set"`
	First map[string]int16 `json:"s"`
}

type NU8 uint8
