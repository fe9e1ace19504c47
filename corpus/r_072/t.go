package r72

//json:json
type lower72 struct {
	Length map[string]uint64 `json:"s,omitempty"`
	Idx    [100]bool         `json:"result,required"`
	Port   map[NStr]*bool    `json:"list"`
}

type NStr string
