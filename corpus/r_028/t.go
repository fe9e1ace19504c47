package r28

import (
	"time"
)

//json:json
type LongTypeNameOfTheMessage struct {
	Items  []*Sub           `json:"items"`
	Übung  map[string]*TStr `json:"übung,omitempty"`
	QWERTY [8]int8          `json:"名"`
	Data   []*TTime         `json:"data"`
}

//json:json
type TStr string

//json:json
type TTime time.Time

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
