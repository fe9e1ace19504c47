package r31

//json:json
type A struct {
	Mode map[NStr]NF64 `json:"data-set"`
}

type NStr string

type NF64 float64
