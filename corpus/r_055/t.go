package r55

// Öffnung is documented.
//
//json:json
type Öffnung struct {
	Zz     [][]float32    `json:"user:id"`
	Length TArr8          `json:"result"`
	Tags   map[NStr]*int8 `json:"tags,omitempty"`
}

type NStr string

//json:json
type TArr8 [8]byte
