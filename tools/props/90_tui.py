P("T01", "The text interface shows texts as they are, whatever keys are pressed",
  "A text buffer gives back the text it was made of (with U+FFFD for invalid UTF-8, and a space before a combining character at the start of a line); its lines, characters and cells agree with each other for every text, and nothing lies beyond their ends. The editor shows exactly the window of the text which the keys pressed, the cursor and the size of the screen lead to: every part of a text can be reached, the window never leaves it, the cursor stays within it and visible. Nothing in a text can command the terminal: no control character reaches it. The pager shows the same on a terminal, gives it back as it was, and fails with an error if there is nothing to show.",
  ["inputs", "histories"], "all texts, sizes of the screen, and sequences of keys, changes of the size and of the cursor",
  "The tests look at two texts in the text buffer; the editor and the pager are not tested.",
  ["tui/textbuffer/textbuffer.go", "tui/editor/model.go", "tui/editor/view.go", "tui/editor/editor.go", "cmd/mutetui/pager.go"],
  [("characters and cells", "tui/textbuffer/textbuffer.go"), ("the window", "tui/editor/view.go"), ("what reaches the terminal", "tui/editor/model.go")],
  "exploration", MON + "text buffers are compared with an independent reading of the text, the editor runs on a simulated screen whose cells are compared with a model of the window after every key, and the pager runs on a pseudo terminal whose output is interpreted by an emulator which accepts nothing but the commands a pager needs",
  "Which characters are wide or combine is taken from go-runewidth, which the code uses too. The order in which a terminal shows text of different directions is not looked at.")
