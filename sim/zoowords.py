"""Vocabulary of simulated documents."""
WORDS = ("red green blue apple pear plum the and of not run runs running café naïve über don't x1 42 "
         "one two three data Data DATA model Model test's señor Øst ß straße 中文 a I o'clock e-mail "
         "foo bar baz qux quux price prices is are was very good bad awful great").split()
