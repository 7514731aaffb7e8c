"""Abstract interpretation of moving mocks and handles and of destroying mocks, sequences and handles in every order."""


def run(ck):
    ck.rule('expectations follow their mock and handle; nothing lost, duplicated or reported early; no access to dead objects')
    ck.irx('life', ['life_move_handle', 'life_assign_handle', 'life_mock_first', 'life_mock_move', 'life_mock_assign', 'life_mock_move_const', 'life_mock_overwritten', 'life_overloads_move', 'life_sequence_first'])
