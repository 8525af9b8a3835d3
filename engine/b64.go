package main

import "encoding/base64"

func b64native(s string, url bool) ([]byte, error) {
	if url {
		return base64.URLEncoding.DecodeString(s)
	}
	return base64.StdEncoding.DecodeString(s)
}
