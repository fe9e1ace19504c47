package d_map_nbool

//json:json
type D map[string]NBool

type NBool bool
