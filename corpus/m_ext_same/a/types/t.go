package types

type Str string

type Common struct {
	A string `json:"aa"`
}
