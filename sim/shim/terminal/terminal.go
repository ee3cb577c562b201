// Package terminal is the simulated replacement of
// golang.org/x/crypto/ssh/terminal.
package terminal

import (
	"errors"

	"verifsim/simk"
)

type State struct{}

func IsTerminal(fd int) bool {
	p := simk.Cur()
	return p != nil && p.IsTTY
}

func GetSize(fd int) (int, int, error) {
	p := simk.Cur()
	if p == nil || !p.IsTTY {
		return 0, 0, errors.New("inappropriate ioctl for device")
	}
	return p.Width, 24, nil
}

func MakeRaw(fd int) (*State, error)      { return nil, errors.New("not a terminal") }
func GetState(fd int) (*State, error)     { return nil, errors.New("not a terminal") }
func Restore(fd int, s *State) error      { return errors.New("not a terminal") }
func ReadPassword(fd int) ([]byte, error) { return nil, errors.New("not a terminal") }
