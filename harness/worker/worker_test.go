package worker

import "testing"

func TestWorker(t *testing.T) { Main(t) }

func TestList(t *testing.T) { List(t) }
