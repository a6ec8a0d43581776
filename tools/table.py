prop("C01", "Truncation windows lose nothing",
     "Truncating an encoding of any length to a maximum length with any smaller stride keeps exactly the first tokens and returns the rest as overflow windows that each start with the last `stride` tokens of the previous window, so that every token, with all its per-token data, is found again in order. Windows do not share memory, and a stride that is not smaller than the maximum length (or a zero maximum) is rejected without changing the encoding.",
     ["inputs"], "every encoding, maximum length and stride",
     "the tests truncate one 3-token encoding with stride 0; lengths, strides, remainders and absent word indices are unbounded",
     ["encoding.go"], [("Encoding.Truncate", "encoding.go"), ("getCurrentPart", "encoding.go")], ["Encoding.Truncate"])
prop("C02", "Padding is exact and touches nothing else",
     "Padding an encoding (or a batch, to a fixed length or to its longest member) appends or prepends exactly the missing number of padding tokens, with the given id, type id and token, zero attention, special mask 1, offsets (0,0) and no word, and leaves every other token and its per-token data as they were. The same holds for every overflow window, also after truncation, and longer encodings stay unchanged.",
     ["inputs", "configurations"], "every batch of encodings, target length, direction and padding strategy",
     "no test pads to the left, pads overflow windows or pads after truncation",
     ["encoding.go", "util.go"], [("Encoding.Pad", "encoding.go"), ("PadEncodings", "util.go")], ["Encoding.Pad", "PadEncodings"])
prop("C03", "Merging encodings is concatenation",
     "Merging encodings in order yields the concatenation of all their per-token data, with offsets of the later part shifted by the end of the earlier part only when growing offsets are asked for, every combination of overflow windows merged the same way, and sequence membership preserved; the merged-in encoding is not changed, and a clone is equal to and independent of its original.",
     ["inputs"], "every pair or chain of encodings, with and without overflow windows and sequence ids",
     "one test merges two one-token encodings",
     ["encoding.go", "util/util.go"], [("Encoding.MergeWith", "encoding.go"), ("Encoding.Merge", "encoding.go"), ("Encoding.Clone", "encoding.go")], ["Encoding.MergeWith"])
prop("C04", "Word, token, character and sequence lookups agree with the arrays",
     "The lookups between words, tokens, characters and sequences answer exactly what the per-token arrays say: a word maps to exactly its tokens and their character span, a token to its own offsets, word and sequence, a character to a token that covers it; anything absent or out of range is reported as not found, never as a wrong answer or a crash.",
     ["inputs"], "every well-formed encoding (special tokens, multi-token words, pairs) and every queried word, token or character",
     "one test queries one encoding that has no special tokens",
     ["encoding.go"], [("Encoding.Word2Tokens", "encoding.go"), ("Encoding.Char2Token", "encoding.go"), ("Encoding.Token2Sequence", "encoding.go")], ["Encoding.Word2Tokens", "Encoding.Token2Chars", "Encoding.Char2Token", "Encoding.GetSequenceIds"])
prop("C05", "Truncation strategies respect the maximum length",
     "Truncating a sequence or a pair leaves at most the maximum number of tokens, removes no more than needed, takes tokens only from the sequence its strategy names (longest-first: one at a time from whichever is longer), and leaves inputs that already fit untouched; what is cut off is in the overflow windows.",
     ["inputs", "configurations"], "every pair of lengths, maximum length, stride and strategy",
     "no test truncates pairs or checks totals",
     ["util.go"], [("TruncateEncodings", "util.go")], ["TruncateEncodings"],
     note="Cuts to a length not above the stride are a known finding and excluded.")
prop("C06", "Post-processing lays out special tokens exactly",
     "For every post-processor the final encoding is the template's special tokens and the input sequences in order, with type ids, word indices, offsets and special-token mask of every token in place and exactly the declared number of added tokens; every overflow window gets the same layout; with truncation the total including special tokens never exceeds the maximum length, and padding comes last.",
     ["inputs", "configurations"], "every single or paired input, post-processor, truncation and padding setting",
     "the tests run single hand-written encodings through the template processor; Bert and Roberta are not tested with overflow or pairs",
     ["tokenizer.go", "processor/bert.go", "processor/roberta.go", "processor/template.go", "pretokenizer/bytelevel.go"],
     [("Tokenizer.PostProcess", "tokenizer.go"), ("BertProcessing.Process", "processor/bert.go"), ("RobertaProcessing.Process", "processor/roberta.go"), ("TemplateProcessing.ApplyTemplate", "processor/template.go")],
     ["Tokenizer.PostProcess", "PostProcessor.Process"])

prop("C07", "Normalization keeps every byte aligned with its original",
     "Whatever sequence of transformations is applied to a NormalizedString (filter, map, transform with insertions and deletions, range transforms, prepend, append, replace, clear), the text is what the transformations say, the original text stays as given, and every byte of either text maps to the range of the other that it came from: alignments have one entry per byte, lie in bounds, never go backwards, and characters that survive map exactly to their original bytes.",
     ["inputs", "histories"], "every valid UTF-8 text and chain of transformations",
     "the tests check a few fixed texts with single transformations; chains, NUL, removals at either end and multi-byte characters are unbounded",
     ["normalizer/normalized.go"], [("NormalizedString.TransformRange", "normalizer/normalized.go"), ("NormalizedString.Filter", "normalizer/normalized.go"), ("NormalizedString.Prepend", "normalizer/normalized.go"), ("NormalizedString.Clear", "normalizer/normalized.go")], ["NormalizedString.Alignments", "NormalizedString.GetNormalized"])
prop("C08", "Ranges convert and slice consistently between original and normalized text",
     "Converting a range between the original and the normalized text covers exactly the bytes aligned with it, taking a substring by either kind of range returns the characters of that range, and a slice of a normalized string is itself a normalized string whose text, original, and alignments are those of the range; ranges that are out of bounds or cut a character are reported as absent, never as a wrong text or a crash; byte and character offsets convert both ways without loss.",
     ["inputs", "histories"], "every valid UTF-8 text, normalization of it, and range",
     "the tests convert a few hand-picked ranges of short texts",
     ["normalizer/normalized.go"], [("NormalizedString.ConvertOffset", "normalizer/normalized.go"), ("NormalizedString.Slice", "normalizer/normalized.go"), ("BytesToChar", "normalizer/normalized.go")], ["NormalizedString.ConvertOffset", "NormalizedString.Slice"])
prop("C09", "Pattern matches and splits cover the text exactly",
     "Finding matches of any pattern (character, string, predicate, regular expression, inverted) returns consecutive spans that cover the whole text once, each marked with whether it matches; splitting by a pattern keeps every delimiter where the chosen behaviour puts it (removed, isolated, merged with the previous or next piece, contiguous), each piece keeps its range of the original text, and nothing else is lost or duplicated.",
     ["inputs", "configurations"], "every text, pattern and delimiter behaviour",
     "the tests split one text with each behaviour",
     ["normalizer/pattern.go", "normalizer/normalized.go"], [("NormalizedString.Split", "normalizer/normalized.go"), ("RegexpPattern.FindMatches", "normalizer/pattern.go")], ["Pattern.FindMatches", "NormalizedString.Split"])
prop("C10", "Normalizers compute their documented text",
     "Each normalizer (Bert clean-up, Chinese spacing and accents, lowercase, strip, replace, prepend, Unicode normalization forms, accent stripping, sequences of them) produces exactly the text its definition gives for every input, including empty text, characters that change length, and control characters, and keeps every output byte aligned with the character it came from.",
     ["inputs", "configurations"], "every valid UTF-8 text and normalizer option",
     "the tests normalize a handful of phrases",
     ["normalizer/bert.go", "normalizer/strip.go", "normalizer/default.go", "normalizer/replace.go", "normalizer/prepend.go", "normalizer/unicode.go", "normalizer/normalizer.go"],
     [("BertNormalizer.Normalize", "normalizer/bert.go"), ("NormalizedString.Lowercase", "normalizer/normalized.go"), ("Replace.Normalize", "normalizer/replace.go")], ["Normalizer.Normalize"])

prop("C11", "BPE applies its merges by rank",
     "For every vocabulary, merge list and word, BPE tokenization repeatedly applies the adjacent pair of lowest rank, leftmost first, until none is left; the tokens concatenate to the word, their offsets are the bytes they cover, continuing-subword prefix and end-of-word suffix are applied as configured, caching changes no result, dropout only ever skips merges (never loses a character), and the pair-count changes reported by a merge are exactly the difference in pair counts.",
     ["inputs", "configurations"], "every word, merge list, random choice of dropout and cache state",
     "the tests tokenize one word with one merge list, and dropout with whatever random numbers come up",
     ["model/bpe/bpe.go", "model/bpe/word.go", "model/bpe/cache.go"], [("Word.MergeAll", "model/bpe/word.go"), ("Word.Merge", "model/bpe/word.go"), ("BPE.MergeWord", "model/bpe/bpe.go"), ("Cache", "model/bpe/cache.go"), ("BPE.Tokenize", "model/bpe/bpe.go")], ["BPE.Tokenize", "Word.MergeAll"])
prop("C12", "WordPiece and WordLevel match exactly",
     "WordPiece splits every word greedily into the longest vocabulary prefix followed by the longest continuing pieces, with byte offsets that tile the word, or gives the unknown token for the whole word when some part has no piece or the word is longer than the maximum; WordLevel gives the id of the word or of the unknown token, and an error when neither exists.",
     ["inputs", "configurations"], "every word, vocabulary and parameter",
     "the tests tokenize no multi-byte words and no unknown parts",
     ["model/wordpiece/wordpiece.go", "model/wordlevel/wordlevel.go"], [("WordPiece.Tokenize", "model/wordpiece/wordpiece.go"), ("WordLevel.Tokenize", "model/wordlevel/wordlevel.go")], ["WordPiece.Tokenize", "WordLevel.Tokenize"])
prop("C13", "Unigram finds the best segmentation",
     "For every vocabulary with scores and every text, Unigram returns a segmentation of the whole text whose total score is the highest of all segmentations (unknown characters costing the minimum score less the penalty, consecutive ones fused), whatever the length of tokens; with byte fallback, unknown characters and only those become their byte tokens; offsets tile the text and the cache changes no result.",
     ["inputs", "configurations"], "every text and every assignment of scores",
     "the tests use a few fixed vocabularies and scores",
     ["model/unigram/unigram.go"], [("Unigram.tokenizeWithViterbi", "model/unigram/unigram.go"), ("Unigram.Tokenize", "model/unigram/unigram.go")], ["Unigram.Tokenize"])
prop("C14", "Added tokens have consistent ids",
     "Whatever sequence of special and ordinary tokens is added, tokens known to the model keep its ids, new ones get the next free ids, empty and repeated ones are ignored; token-to-id and id-to-token are inverse, the vocabulary and its size with added tokens are the model's plus exactly those, the model's own vocabulary is left alone, and decoding turns ids back into tokens in order, skipping exactly the special ones when asked.",
     ["inputs", "histories"], "every history of additions and every id sequence",
     "the tests add two or three fixed tokens",
     ["added-vocabulary.go", "tokenizer.go", "model/bpe/bpe.go", "model/unigram/unigram.go", "model/wordlevel/wordlevel.go", "model/wordpiece/wordpiece.go"], [("AddedVocabulary.AddTokens", "added-vocabulary.go"), ("Tokenizer.GetVocab", "tokenizer.go"), ("Tokenizer.Decode", "tokenizer.go")], ["Tokenizer.TokenToId", "Tokenizer.IdToToken", "Tokenizer.GetVocab", "Tokenizer.Decode"])
prop("C15", "Added tokens are found in the text",
     "Extracting added tokens from any text finds exactly their leftmost non-overlapping occurrences (of overlapping ones, that of the token added first), in the raw text or in the normalized text as each token declares, restricted to whole words for single-word tokens and extended over adjacent whitespace for stripping ones; each becomes one split with its id and the rest of the text is kept, once and in order, with its offsets.",
     ["inputs", "configurations"], "every text and every combination of the options of the added tokens",
     "the tests extract tokens from a few fixed texts",
     ["added-vocabulary.go", "pretokenizer.go"], [("AddedVocabulary.ExtractAndNormalize", "added-vocabulary.go"), ("AddedVocabulary.findMatches", "added-vocabulary.go")], ["AddedVocabulary.ExtractAndNormalize"],
     note="Single-word tokens next to non-ASCII letters are a known finding and excluded.")

prop("C16", "Tokens keep their offsets in the input",
     "However a text is normalized, cut into pieces (some of which already have tokens) and normalized again, every token of the final encoding has exactly the byte (or character) offsets in the original input of the characters it was made from, the index of its piece (or the given word) as word, and the tokens come in text order with nothing lost; the pieces report their own offsets alike, byte offsets convert to character offsets exactly, and this holds for single texts, pairs and pre-tokenized inputs through every encoding entry point.",
     ["inputs", "histories"], "every text, normalization, segmentation and tokenization",
     "the tests check offsets of a few English sentences, most of them ASCII",
     ["pretokenizer.go", "tokenizer.go"], [("PreTokenizedString.IntoEncoding", "pretokenizer.go"), ("PreTokenizedString.Split", "pretokenizer.go"), ("PreTokenizedString.Normalize", "pretokenizer.go"), ("BytesToCharOffsetConverter.Convert", "pretokenizer.go"), ("Tokenizer.EncodeSingleSequence", "tokenizer.go")],
     ["PreTokenizedString.IntoEncoding", "PreTokenizedString.GetSplits", "Tokenizer.Encode", "Tokenizer.EncodeCharOffsets"])
prop("C17", "Batches equal their members, under every schedule",
     "Encoding or decoding a batch gives, whatever the interleaving of the goroutines, exactly what encoding or decoding each member alone gives, in input order (padded together when asked), and an error exactly if some member fails; a tokenizer, with the caches of its model, can be shared by goroutines without data races and without affecting results.",
     ["schedules", "inputs"], "every interleaving of the goroutines of a batch or of several callers",
     "the tests run batches of a few inputs under whatever schedule comes up, without the race detector",
     ["tokenizer.go", "model/bpe/cache.go", "model/unigram/unigram.go"], [("Tokenizer.EncodeBatch", "tokenizer.go"), ("Tokenizer.DecodeBatch", "tokenizer.go"), ("Cache.SetValues", "model/bpe/cache.go")],
     ["Tokenizer.EncodeBatch", "Tokenizer.DecodeBatch"])
prop("C18", "Pre-tokenizers cut exactly at their boundaries",
     "Every pre-tokenizer (whitespace, word, delimiter, punctuation, digits, Bert, string/regexp/inverted split, unicode scripts, and sequences of them) cuts a text exactly at the boundaries it documents, under every delimiter behaviour: delimiters are removed, isolated, merged or kept as configured, all other text appears once, in order, and every piece reports the offsets of its characters in the original text.",
     ["inputs", "configurations"], "every text and every configuration",
     "the tests split one or two sentences per pre-tokenizer",
     ["pretokenizer/whitespace.go", "pretokenizer/punctuation.go", "pretokenizer/digits.go", "pretokenizer/bert.go", "pretokenizer/split.go", "pretokenizer/sequence.go", "pretokenizer/delimiter.go", "pretokenizer/unicode-script.go", "normalizer/normalized.go", "normalizer/pattern.go"],
     [("PreTokenizedString.Split", "pretokenizer.go"), ("NormalizedString.Split", "normalizer/normalized.go"), ("Pattern.FindMatches", "normalizer/pattern.go")],
     ["PreTokenizer.PreTokenize", "PreTokenizedString.GetSplits"])
prop("C19", "Byte-level tokens stand for all bytes, reversibly",
     "The byte-level pre-tokenizer maps the 256 bytes one-to-one to printable characters, cuts every text at the documented boundaries (contractions, optional space with letters, numbers or other characters, whitespace) without losing a byte, so that decoding the pieces gives back the text (with the prefix space when one is added), decoding leaves tokens that are not byte-level as they are, and the post-processor trims exactly the spaces around tokens from their offsets.",
     ["inputs", "configurations"], "every text, byte sequence and option",
     "the tests take a few sentences, most of them ASCII",
     ["pretokenizer/bytelevel.go", "processor/bytelevel.go"], [("ByteLevel.PreTokenize", "pretokenizer/bytelevel.go"), ("ByteLevel.DecodeChain", "pretokenizer/bytelevel.go"), ("ProcessOffsets", "pretokenizer/bytelevel.go")],
     ["ByteLevel.PreTokenize", "ByteLevel.Decode", "Tokenizer.Encode"])
prop("C20", "Metaspace replaces spaces reversibly",
     "Metaspace turns every whitespace into the replacement character (any character), puts one in front of the text exactly when its scheme says so (never, first piece, every piece) and the text does not begin with one, cuts exactly in front of every replacement, keeps the offsets of all characters, and decoding the pieces gives the text back with its spaces, without the one that may have been added in front.",
     ["inputs", "configurations"], "every text, replacement character and scheme",
     "the tests split two or three sentences with the default replacement",
     ["pretokenizer/metaspace.go"], [("Metaspace.PreTokenize", "pretokenizer/metaspace.go"), ("Metaspace.DecodeChain", "pretokenizer/metaspace.go")],
     ["Metaspace.PreTokenize", "Metaspace.Decode"])
prop("C21", "Decoders rebuild exactly the documented text",
     "For every list of tokens: the BPE decoder turns suffixes into spaces except in the last token, WordPiece joins continuing pieces and puts a space before the others (and cleans up when asked), byte fallback turns runs of byte tokens into their UTF-8 text or one U+FFFD per byte and leaves all other tokens alone, CTC drops repetitions and pads, Strip strips at most the given number of characters at each end, Fuse joins, a sequence applies its decoders one after the other; decoding is always the concatenation of the decoded parts, and the tokens given are left alone.",
     ["inputs", "configurations"], "every list of tokens and configuration",
     "the tests decode one or two fixed lists for half of the decoders",
     ["decoder/bpe.go", "decoder/wordpiece.go", "decoder/byte-fallback.go", "decoder/ctc.go", "decoder/strip.go", "decoder/fuse.go", "decoder/sequence.go", "decoder/decoder.go"],
     [("DecoderBase.Decode", "decoder/decoder.go"), ("ByteFallback.DecodeChain", "decoder/byte-fallback.go"), ("Strip.DecodeChain", "decoder/strip.go"), ("CTC.DecodeChain", "decoder/ctc.go")],
     ["Decoder.Decode", "Decoder.DecodeChain"])
prop("C22", "Precompiled charsmaps are applied as written",
     "For every precompiled charsmap and text, the shortest rule that is a prefix of a grapheme of fewer than six bytes replaces it, otherwise the rules are applied to its characters, and all else is kept (rules may remove text); every character of the result maps to the original text it was made from, looking up a prefix finds exactly the rules of the charsmap, and malformed charsmaps give an error or are looked up without crashing.",
     ["inputs", "configurations"], "every text and charsmap, well-formed or not",
     "the tests look up five keys in one charsmap",
     ["normalizer/precompiled.go", "spm/spm-precompiled.go"], [("Precompiled.Normalize", "normalizer/precompiled.go"), ("DoubleArray.CommonPrefixSearch", "spm/spm-precompiled.go"), ("Precompiled.Lookup", "spm/spm-precompiled.go")],
     ["normalizer.Precompiled.Normalize", "spm.Precompiled.Transform", "spm.Precompiled.NormalizeString"])
prop("C23", "Training merges the most frequent pairs, reproducibly",
     "Training a BPE (or WordPiece) model on word counts gives, whatever the schedule and the order of maps, one model: ids 0 to n-1 for the special tokens, then the (limited, most frequent and initial) alphabet in order, then the characters with subword prefix or word suffix, then the merged tokens; every merge is a pair that was most frequent, and frequent enough, in the words with all earlier merges applied, merging goes on until the vocabulary is large enough or no pair is frequent enough, and the model segments the words as training left them.",
     ["inputs", "configurations", "schedules"], "every word count, trainer configuration, order of maps and schedule",
     "the tests train on one or two tiny fixed lists of words",
     ["model/bpe/trainer.go", "model/bpe/word.go", "model/wordpiece/trainer.go"],
     [("BpeTrainer.Train", "model/bpe/trainer.go"), ("BpeTrainer.countPairs", "model/bpe/trainer.go"), ("BpeTrainer.computeAlphabet", "model/bpe/trainer.go"), ("Word.Merge", "model/bpe/word.go"), ("WordPieceTrainer.Train", "model/wordpiece/trainer.go")],
     ["BpeTrainer.Train", "BpeTrainer.ProcessTokens", "WordPieceTrainer.Train"])
prop("C24", "A tokenizer.json gives exactly the tokenizer it describes",
     "Creating a tokenizer (or one of its parts: model, normalizer, pre-tokenizer, post-processor, decoder, added tokens, truncation, padding) from the data of a tokenizer.json gives one that behaves exactly like the one built by hand with the options that the data states, every option being honoured whether absent, null or set, parts that are null being left out and sequences keeping their order; added tokens keep their flags and get their ids in order, and unknown types, invalid patterns, merges, charsmaps and documents give an error.",
     ["configurations", "inputs"], "every type, value of every option, and text",
     "the tests of these functions download real files, so none of them runs here, and each looks at one file",
     ["pretrained/tokenizer.go", "pretrained/model.go", "pretrained/normalizer.go", "pretrained/pretokenizer.go", "pretrained/processor.go", "pretrained/decoder.go", "pretrained/padding.go", "pretrained/truncation.go", "pretrained/added-tokens.go", "util/param.go", "config.go"],
     [("FromReader", "pretrained/tokenizer.go"), ("CreateModel", "pretrained/model.go"), ("CreateNormalizer", "pretrained/normalizer.go"), ("CreatePreTokenizer", "pretrained/pretokenizer.go"), ("CreatePostProcessor", "pretrained/processor.go"), ("CreateDecoder", "pretrained/decoder.go")],
     ["pretrained.FromReader", "Tokenizer.Encode", "Tokenizer.Decode", "pretrained.CreatePaddingParams", "pretrained.CreateTruncationParams"])

prop("C25", "Any bytes can be encoded",
     "Encoding, normalizing and cutting a text never fails because its bytes are not valid UTF-8: every byte that is not part of a character is treated as U+FFFD, and the tokens are those of the text with these characters in place of the bytes. All offsets, alignments and converted ranges still refer to the bytes (or characters) of the text as it was given, and the original text is untouched.",
     ["inputs", "configurations"], "every sequence of bytes, as a single text, a pair or words, with any of the normalizers and pre-tokenizers",
     "no test has a text that is not valid UTF-8",
     ["normalizer/normalized.go", "pretokenizer.go", "tokenizer.go", "added-vocabulary.go"],
     [("NewNormalizedFrom", "normalizer/normalized.go"), ("createAligns", "normalizer/normalized.go"), ("PreTokenizedString.IntoEncoding", "pretokenizer.go"), ("NewBytesToCharOffsetConverter", "pretokenizer.go")],
     ["Tokenizer.Encode", "Tokenizer.EncodeCharOffsets", "NormalizedString.Alignments", "PreTokenizedString.GetSplits"])

prop("C26", "A saved model reads back as the same model",
     "Saving a BPE, WordPiece, WordLevel or Unigram model and reading the files back (Unigram as the model of a tokenizer.json) gives a model with the same tokens, ids, merges in the same order and options, so that it tokenizes every text alike; saving over files of an earlier model leaves nothing of them. When a file cannot be written, or is missing or malformed when it is read, there is an error.",
     ["inputs", "configurations", "fault_sequences"], "every vocabulary, set of merges and option, fault of the file system, and files that are there before",
     "no test saves a model",
     ["model/bpe/bpe.go", "model/wordpiece/wordpiece.go", "model/wordlevel/wordlevel.go", "model/unigram/unigram.go", "pretrained/model.go"],
     [("BPE.Save", "model/bpe/bpe.go"), ("BPE.ReadFiles", "model/bpe/bpe.go"), ("WordPiece.Save", "model/wordpiece/wordpiece.go"), ("NewWordPieceFromFile", "model/wordpiece/wordpiece.go"), ("WordLevel.Save", "model/wordlevel/wordlevel.go"), ("Unigram.Save", "model/unigram/unigram.go")],
     ["Model.Save", "NewBpeFromFiles", "NewWordPieceFromFile", "NewWorldLevelFromFile", "pretrained.CreateModel"])

prop("C27", "Training on files uses every word of every line exactly once",
     "Tokenizer.Train gives the trainer every word of every line of every file, normalized and split by the tokenizer's normalizer and pre-tokenizer, as often as it occurs, however many files there are, however large they are (they are read in chunks by concurrent workers) and however the workers are scheduled; then the tokenizer has the trained model and the trainer's special tokens. If a file cannot be read or a line cannot be normalized or split, Train returns an error and the tokenizer stays as it was.",
     ["inputs", "schedules", "fault_sequences"], "every content and number of files, position of the chunk boundaries, schedule of the workers, missing file and failing line",
     "no test calls Train; a chunk is 100 MB, so that no test file would have two",
     ["tokenizer.go", "model/bpe/trainer.go"],
     [("Tokenizer.Train", "tokenizer.go"), ("Tokenizer.processChunk", "tokenizer.go"), ("BpeTrainer.ProcessTokens", "model/bpe/trainer.go")],
     ["Tokenizer.Train", "Tokenizer.GetModel", "Tokenizer.TokenToId"])
prop("C28", "Failures while encoding are returned as errors",
     "When something that encoding a text needs fails (the normalizer, the pre-tokenizer, the model, a model that has no token for a character and no unknown token, a truncation whose sequence is missing or too short, an unknown kind of input), every method that encodes (texts, pairs, lists of words, with byte or character offsets, batches) returns an error and no encoding, and neither panics nor ends the process. There is no error without a failure, and a failure leaves the tokenizer as it was.",
     ["inputs", "fault_sequences", "schedules"], "every input, point of failure, vocabulary without unknown token, truncation setting and schedule of a batch",
     "no test lets a component fail or truncates a sequence that is too short; the failing call can be any of them",
     ["tokenizer.go", "added-vocabulary.go", "pretokenizer.go", "util.go", "model/bpe/bpe.go", "model/wordpiece/wordpiece.go", "model/wordlevel/wordlevel.go", "model/unigram/unigram.go"],
     [("Tokenizer.Encode", "tokenizer.go"), ("Tokenizer.EncodeBatch", "tokenizer.go"), ("truncateEncodings", "util.go"), ("AddedVocabulary.extractAndNormalize", "added-vocabulary.go"), ("BPE.Tokenize", "model/bpe/bpe.go")],
     ["Tokenizer.Encode", "Tokenizer.EncodeCharOffsets", "Tokenizer.EncodeBatch", "Tokenizer.Tokenize", "Model.Tokenize"],
     note="A truncation to a length not above the stride or the number of special tokens is a known finding of C05 and C06.")

prop("C29", "Cached files are complete or not there",
     "CachedPath gives the path of a file whose content is exactly that of the local file or of the download, and serves it from then on without copying or downloading it again; nothing else is stored under its name at any time. When the file is missing, the connection fails or is cut at any byte, the answer is not a success, or the disk is full, there is an error and the next call starts anew; concurrent calls for one file do not disturb each other.",
     ["inputs", "fault_sequences", "crash_points", "schedules"], "every content, point of failure or interruption and schedule of concurrent callers",
     "the tests of CachedPath need the network and no fault; an incomplete file can be left at every byte",
     ["file-util.go"],
     [("CachedPath", "file-util.go"), ("downloadFile", "file-util.go"), ("copyFile", "file-util.go")],
     ["CachedPath"])

prop("C30", "An assembled tokenizer is lossless and encodes alike every time",
     "A tokenizer assembled of the package's components works as a whole: one of the byte-level kind (GPT-2, RoBERTa) or of the SentencePiece kind (Metaspace, Unigram with bytes) decodes the encoding of any text to that text (with the spaces its options put in front), with offsets that go through it without gaps; one of the BERT kind gives the words of the normalized text, each cut into the longest pieces, between the special tokens, every token with the offsets of its characters, its word and its type. Encoding a text gives the same result whichever method is used and whatever was encoded before or done with earlier results, and no token is lost between an encoding and its overflow windows.",
     ["inputs", "configurations", "histories"], "every text, pair, option of the assembled kinds, and history of earlier calls",
     "the tests of whole tokenizers need downloaded files; each looks at a few sentences",
     ["tokenizer.go", "pretokenizer/bytelevel.go", "pretokenizer/metaspace.go", "pretokenizer/bert.go", "normalizer/bert.go", "model/bpe/bpe.go", "model/unigram/unigram.go", "model/wordpiece/wordpiece.go", "processor/bert.go", "processor/roberta.go", "decoder/byte-fallback.go"],
     [("Tokenizer.Encode", "tokenizer.go"), ("Tokenizer.Decode", "tokenizer.go"), ("ByteLevel.PreTokenize", "pretokenizer/bytelevel.go"), ("Metaspace.PreTokenize", "pretokenizer/metaspace.go"), ("BertNormalizer.Normalize", "normalizer/bert.go")],
     ["Tokenizer.EncodeSingle", "Tokenizer.EncodePair", "Tokenizer.EncodeBatch", "Tokenizer.EncodeCharOffsets", "Tokenizer.Tokenize", "Tokenizer.Decode"])

prop("C31", "Templates mean what they say, and bad ones are refused",
     "A template for special tokens, given as a text or a list, is read piece by piece: `$`, `$A`, `$B` and `$n` are the first or second sequence (n its type), everything else a special token, `:n` its type; anything malformed gives an error and never another template. The builder gives the same processor in whatever order its options are set, with the number of special tokens that are added, and validation succeeds exactly if the template for pairs uses both sequences and every special token is defined.",
     ["inputs", "configurations", "histories"], "every text of a template, set of defined special tokens of one or more ids, and order of setting the options",
     "the tests read ten pieces and build one template in one order; nothing calls Validate",
     ["processor/template.go"],
     [("NewPiece", "processor/template.go"), ("NewTemplate", "processor/template.go"), ("TemplateProcessingBuilder.Validate", "processor/template.go"), ("countAdded", "processor/template.go"), ("TemplateProcessing.ApplyTemplate", "processor/template.go")],
     ["processor.NewPiece", "processor.NewTemplate", "TemplateProcessingBuilder.Validate", "TemplateProcessing.AddedTokens", "TemplateProcessing.Process"])


NOT_APPLICABLE = []
