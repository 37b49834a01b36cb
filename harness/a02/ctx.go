package a02

import (
	"context"
	"net/http"
)

func withSeen(r *http.Request, s *seen) context.Context {
	return context.WithValue(r.Context(), seenKey{}, s)
}
