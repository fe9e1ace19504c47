package r46

//json:json
type T struct {
	First []NInt          `json:"Title,required"`
	Path  map[string]uint `json:"user:id"`
	B     [][]uint        `json:"x,required"`
}

type NInt int
