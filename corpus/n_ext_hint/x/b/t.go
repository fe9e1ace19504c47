package b

const Width = 3

var Inn = 4

type Other struct {
	Inner int `json:"inner"`
	O     int `json:"o"`
}
