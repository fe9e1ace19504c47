package base

type Common struct {
	ID   int     `json:"id"`
	Name *string `json:"name,omitempty"`
	Tags []string `json:"tags"`
	Inner `json:",inline"`
}

type Inner struct {
	Deep bool `json:"deep"`
	Kind string `json:"kind" default:"none"`
}

//json:json
type Extra struct {
	X float64 `json:"x"`
}
