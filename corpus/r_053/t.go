package r53

// T is documented.
//
//json:json
type T struct {
	Kind  map[string]*string `json:"kind,required"`
	Path  map[string]*NStr   `json:"o,required"`
	B     *int16             `json:"f2"`
	Obj   *uint8             `json:"f3"`
	Note  []NInt             `json:"имя"`
	Übung map[string]NStr    `json:"s,required"`
	Tags  map[string]NU8     `json:"type,required"`
}

type NStr string

type NInt int

type NU8 uint8
