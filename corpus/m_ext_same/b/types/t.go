package types

type Str int

type Common struct {
	B int `json:"bb"`
}
