package r100

// json:strict
type With_Under struct {
	Kind  []*NU64          `json:"0,required"`
	First []uint           `json:"first,omitempty"`
	Path  [16]NI32         `json:"f2"`
	URL   map[string]*NU64 `json:"f3"`
	ID    []*int64         `json:"id"`
}

type NI32 int32

type NU64 uint64
