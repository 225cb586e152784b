import os, runpy
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch6.py"))
src = B["src"]
SEEDS=[]
def seed(id,prop,needs,breaks,edits,main): SEEDS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,main=main))

ROUNDS='''// A protocol of our own: round k takes one message of its type from every peer.
type base struct {
	*state.BaseRound
	types []messages.MessageType
	got   int
}

type round struct {
	*base
	k int
}

func (r *round) ProcessMessage(m *messages.Message) *state.Error {
	if m != nil {
		r.got++
	}
	return nil
}

func (r *round) GenerateMessages() ([]*messages.Message, *state.Error) {
	return []*messages.Message{messages.NewSign2(r.SelfID(), ristretto.NewScalar())}, nil
}

func (r *round) NextRound() state.Round {
	if r.k+1 == len(r.types) {
		return nil
	}
	return &round{r.base, r.k + 1}
}

func (r *round) Reset() {}

func (r *round) AcceptedMessageTypes() []messages.MessageType { return r.types }

func protocol(ids party.IDSlice, types ...messages.MessageType) (*state.State, *base) {
	b, err := state.NewBaseRound(ids[0], ids)
	must(err)
	r := &base{BaseRound: b, types: append([]messages.MessageType{messages.MessageTypeNone}, types...)}
	s, err := state.NewBaseState(&round{r, 0}, 0)
	must(err)
	return s, r
}

func message(t messages.MessageType, from, to party.ID) *messages.Message {
	switch t {
	case messages.MessageTypeKeyGen2:
		return messages.NewKeyGen2(from, to, ristretto.NewScalar())
	case messages.MessageTypeSign1:
		return messages.NewSign1(from, ristretto.NewGeneratorElement(), ristretto.NewGeneratorElement())
	}
	return messages.NewSign2(from, ristretto.NewScalar())
}

'''
seed('c31-next-type-only','C31','a protocol of rounds that does not use neighbouring message types, and a message that comes early',
 'the engine keeps early messages only if their type directly follows the current one, so a message for a later round of another protocol is lost after having been accepted',
 [('pkg/state/state.go','''			} else {
				newQueue = append(newQueue, msg)
			}
''','''			} else if msg.Type == currentType+1 {
				newQueue = append(newQueue, msg)
			}
''')],
 src(ROUNDS+'''func main() {
	s, r := protocol(party.IDSlice{1, 2}, messages.MessageTypeKeyGen2, messages.MessageTypeSign2)
	must(s.HandleMessage(message(messages.MessageTypeSign2, 2, 1)))
	s.ProcessAll()
	must(s.HandleMessage(message(messages.MessageTypeKeyGen2, 2, 1)))
	s.ProcessAll()
	check(s.IsFinished() && r.got == 2, "a message that was accepted early is lost")
}
'''))
seed('c31-last-words','C31','a protocol whose last round sends something',
 'what the last round wants to send is dropped',
 [('pkg/state/state.go','''	if nextRound == nil {
		s.finish()
	} else {
''','''	if nextRound == nil {
		s.finish()
		return nil // nobody is waiting for more
	} else {
''')],
 src(ROUNDS+'''func main() {
	s, _ := protocol(party.IDSlice{1, 2}, messages.MessageTypeSign2)
	check(len(s.ProcessAll()) == 1, "the first round sends nothing")
	must(s.HandleMessage(message(messages.MessageTypeSign2, 2, 1)))
	check(len(s.ProcessAll()) == 1 && s.IsFinished(), "the last message is not sent")
}
'''))
seed('c31-queue-limit','C31','a protocol with three or more rounds of messages, most of them early',
 'a session refuses early messages beyond two per party, so a protocol with more rounds depends on the order of delivery',
 [('pkg/state/state.go','''	s.ackMessage()

	if msg.Type''','''	// no protocol has more than two rounds of messages
	if len(s.queue) >= 2*int(s.round.PartyIDs().N()-1) {
		return s.wrapError(errors.New("too many early messages"), senderID)
	}

	s.ackMessage()

	if msg.Type''')],
 src(ROUNDS+'''func main() {
	s, r := protocol(party.IDSlice{1, 2}, messages.MessageTypeKeyGen2, messages.MessageTypeSign1, messages.MessageTypeSign2)
	for _, t := range []messages.MessageType{messages.MessageTypeSign2, messages.MessageTypeSign1, messages.MessageTypeKeyGen2} {
		must(s.HandleMessage(message(t, 2, 1)))
	}
	s.ProcessAll()
	check(s.IsFinished() && r.got == 3, "the session does not finish")
}
'''))
