package rand

import (
	"errors"
	"io"
	"syscall"

	"crypto/internal/rand"
)

// stream delivers the bytes of a file, and fails at its end: the operating system's generator, under control.
type stream struct {
	data []byte
}

func (s *stream) Read(b []byte) (int, error) {
	if len(s.data) == 0 && len(b) > 0 {
		return 0, errors.New("no more random data")
	}
	n := copy(b, s.data)
	s.data = s.data[n:]
	return n, nil
}

func source() io.Reader {
	path, ok := syscall.Getenv("VERIF_RAND")
	if !ok {
		return rand.Reader
	}
	fd, err := syscall.Open(path, syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
	if err != nil {
		panic(err)
	}
	s := &stream{}
	buf := make([]byte, 4096)
	for {
		n, err := syscall.Read(fd, buf)
		if err != nil {
			panic(err)
		}
		if n == 0 {
			break
		}
		s.data = append(s.data, buf[:n]...)
	}
	syscall.Close(fd)
	return s
}
