package clock

//json:json
type Time struct {
	H int `json:"h"`
	M int `json:"m"`
}

//json:json
type UUID []string
