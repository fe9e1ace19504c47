package files

//json:strict
type Sub struct {
	X int `json:"x"`
}

//json:json
type Str string

//json:json
type Words []string
