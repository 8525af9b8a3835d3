package znode

import (
	"encoding/json"
	"net/http"
	"net/http/httptest"

	"github.com/gorilla/websocket"
)

// RPC answers one call: a result, or an error code and message.
type RPC func(method string, params json.RawMessage) (result interface{}, code int, msg string)

// Stream gives the notifications for a websocket request; the connection
// stays open until stop is closed.
type Stream func(path string, req json.RawMessage) []interface{}

// Serve starts a node on the loopback interface; it breaks a websocket
// connection after its notifications if drop is set.
func Serve(rpc RPC, st Stream, drop bool) (url string, stop func()) {
	done := make(chan struct{})
	up := websocket.Upgrader{}
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if websocket.IsWebSocketUpgrade(r) {
			c, err := up.Upgrade(w, r, nil)
			if err != nil {
				return
			}
			defer c.Close()
			_, req, err := c.ReadMessage()
			if err != nil {
				return
			}
			c.WriteJSON(map[string]interface{}{"code": 0})
			for _, n := range st(r.URL.Path, req) {
				if c.WriteJSON(n) != nil {
					return
				}
			}
			if drop {
				return
			}
			<-done
			return
		}
		var req struct {
			ID     interface{}     `json:"id"`
			Method string          `json:"method"`
			Params json.RawMessage `json:"params"`
		}
		if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
			w.WriteHeader(http.StatusBadRequest)
			return
		}
		res, code, msg := rpc(req.Method, req.Params)
		w.Header().Set("Content-Type", "application/json")
		out := map[string]interface{}{"jsonrpc": "2.0", "id": req.ID}
		if code != 0 {
			out["error"] = map[string]interface{}{"code": code, "message": msg}
			if code > -32000 {
				w.WriteHeader(http.StatusInternalServerError)
			}
		} else {
			out["result"] = res
		}
		json.NewEncoder(w).Encode(out)
	})
	s := httptest.NewServer(h)
	return s.URL, func() { close(done); s.CloseClientConnections() }
}
