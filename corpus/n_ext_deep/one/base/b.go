package base

type Str string

type X struct {
	One string `json:"one"`
}
