package d_nmap_p_bool

//json:json
type D map[NStr]*bool

type NStr string
