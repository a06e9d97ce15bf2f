RM = 'runtime monitoring: reference-model monitor over executions of the real code'

prop('C01', 'Packet framing is exact for every body size and header style',
     'A packet serialised in either header style and parsed again yields the same tag, header style and body, and a sequence of packets parses back as exactly that sequence with no byte skipped, duplicated or left over. Parsing from bytes and from a file stream agree, for one-, two-, four- and five-octet, partial and indeterminate lengths. A length that claims more data than the input holds is never accepted as a complete packet.',
     ['inputs'],
     'every tag, body length (in particular around 191/192, 8383/8384, 255/256, 65535/65536 and 2^24), header style, chunking into partial lengths and truncation point, via bytes and via stream',
     'The tests only read four small well-formed keys and messages; no test varies length encodings, partial chunks, stream parsing or truncation.',
     ['pgp/packets/packets.py', 'pgp/packets/parsers.py', 'pgp/utils.py'],
     [('length encoders and decoders', 'pgp/utils.py old_packet_length*, new_packet_length*'),
      ('packet reader', 'pgp/packets/packets.py packet_from_packet_data, packet_from_packet_stream'),
      ('serialiser', 'pgp/packets/packets.py Packet.__bytes__')],
     technique=RM, note='')

prop('C02', 'Packet contents survive parsing and re-serialisation unchanged',
     'For every supported packet type and signature or user-attribute subpacket type, parsing a well-formed packet exposes the field values that were encoded, and serialising the parsed object reproduces the same body bytes. Building a packet from field values and parsing it back yields the same values.',
     ['inputs'],
     'all packet types, versions, algorithms, subpacket types, flags, times and field sizes that the format allows and the library claims to support',
     'Tests exercise only the handful of packets in four fixture files and never compare the re-serialised bytes.',
     ['pgp/packets/packets.py', 'pgp/packets/signature_subpackets.py', 'pgp/packets/user_attribute_subpackets.py', 'pgp/utils.py'],
     [('from_packet_content / content of every packet class', 'pgp/packets/packets.py'),
      ('subpacket codecs', 'pgp/packets/signature_subpackets.py, user_attribute_subpackets.py')],
     technique=RM, note='')

prop('C03', 'Number, MPI, length and hex codecs are exact for every integer',
     'Encoding any non-negative integer as a multi-precision integer, byte string, fixed-width integer, hex string or passphrase-hash iteration count and decoding it gives the same integer, and the encoding is the one OpenPGP prescribes (big-endian, minimal length, exact bit count). Values the encoding cannot represent are refused instead of being altered.',
     ['inputs'],
     'integers of every magnitude up to key size, especially 0, powers of two and their neighbours, at any offset of a buffer, and all 256 coded iteration counts',
     'Six tests encode three small numbers; the code computes bit counts in floating point, so failures sit next to powers of two no test samples.',
     ['pgp/utils.py'],
     [('integer codecs', 'pgp/utils.py bytes_to_int .. int_to_mpi'),
      ('coded count', 'pgp/utils.py s2k_count_to_int, int_to_s2k_count'),
      ('hex codecs', 'pgp/utils.py int_to_hex, hex_to_bytes, bytearray_to_hex')],
     technique=RM, note='')

prop('C04', 'ASCII armor carries any data intact and detects corruption',
     'Armoring any binary data with any armor type and headers and reading it back yields the same type, headers and data, in the line format OpenPGP prescribes with the correct 24-bit checksum. Armored text whose payload or checksum was altered, or which lacks its structure, is rejected and never yields different data; headers that armor cannot carry are refused when it is written.',
     ['inputs'],
     'all payload lengths modulo the base64 group and line length, all armor types, header sets, line endings and surrounding text, and every single-character corruption of payload or checksum',
     'The tests read four fixed armored files and write one; they never corrupt a payload nor use headers.',
     ['pgp/armor.py', 'pgp/crc24.py', 'pgp/packets/parsers.py'],
     [('armor writer and reader', 'pgp/armor.py ASCIIArmor'),
      ('checksum', 'pgp/crc24.py crc24')],
     technique=RM, note='')

prop('C05', 'Passphrases turn into the exact keys OpenPGP prescribes',
     'For every string-to-key specifier (simple, salted, iterated), hash algorithm, salt, count and passphrase, the derived key equals the one defined by OpenPGP for every key length, including keys longer than one digest and counts shorter than the salted passphrase. A specifier written out and read back derives the same key, and two specifiers compare equal exactly when everything they say is equal.',
     ['inputs'],
     'specifier kind x digest x salt x coded count x passphrase (empty, long, non-ASCII) x cipher key length',
     'The tests unlock two keys with one passphrase each; they never compare a derived key with an independent derivation.',
     ['pgp/s2k.py', 'pgp/utils.py'],
     [('derivation', 'pgp/s2k.py *.to_key'),
      ('specifier codec', 'pgp/s2k.py parse_s2k_bytes, __bytes__')],
     technique=RM, note='')

prop('C06', 'Every supported cipher mode computes the standard function',
     'Encrypting with any supported cipher in any supported block mode yields the standard ciphertext for that key, IV and data, decrypting restores the data, and splitting the data over several calls gives the same output as one call. The IDEA implementation equals the published cipher for every key and block, and misuse (wrong key, IV or data size) is refused.',
     ['inputs', 'histories'],
     'ciphers x modes (ECB, CBC, CFB with each segment size, OFB, CTR, OpenPGP CFB) x keys x IVs x lengths x ways to split the stream',
     'Published vectors cover a few keys in ECB and short CBC/CFB runs in one call; no test checks split calls, segment sizes, or values that hit the 16-bit wrap-around of the multiplication.',
     ['pgp/cipher/aidea.py', 'pgp/cipher/base.py', 'pgp/cipher/camellia.py', 'pgp/cipher/twofish.py', 'pgp/cipher/wrapper.py', 'pgp/utils.py'],
     [('block modes', 'pgp/cipher/base.py _InternalObj'),
      ('IDEA', 'pgp/cipher/aidea.py AIDEA'),
      ('cipher factory', 'pgp/utils.py get_symmetric_cipher')],
     technique=RM, note='')

prop('C07', 'An encrypted message decrypts to the original for every recipient',
     'A message of any kind, encrypted to any set of public keys and passphrases with any supported cipher, with or without compression and integrity protection, written out (in either packet header style) and read back, gives every one of those recipients exactly the original message (data, file name, time, kind). Encrypted messages produced by an independent OpenPGP encoder are decrypted likewise, and what the library produces is decrypted by an independent decoder.',
     ['inputs', 'configurations'],
     'ciphers x compression x integrity on/off x number and kinds of recipients x literal kinds x data sizes including empty and block-boundary sizes',
     'The tests encrypt one short text with one cipher to one recipient with integrity protection.',
     ['pgp/message.py', 'pgp/packets/packets.py', 'pgp/utils.py', 'pgp/s2k.py'],
     [('data packet encryption', 'pgp/packets/packets.py SymmetricallyEncryptedDataPacket, SymmetricallyEncryptedAndIntegrityProtectedDataPacket'),
      ('session keys', 'pgp/packets/packets.py PublicKeyEncryptedSessionKeyPacket, SymmetricKeyEncryptedSessionKeyPacket'),
      ('message wrappers', 'pgp/message.py')],
     technique=RM, note='')

prop('C08', 'Tampered or wrongly keyed ciphertext never yields a message',
     'When any part of an integrity-protected encrypted message is altered, truncated, extended or recombined with parts of another message, decryption raises an error or, at most, returns the original message; it never returns different content. Decrypting with a passphrase or key that is not a recipient never returns a message. A session key encrypted to a public key is taken only when the decrypted block has the type, padding and checksum the format asks for. (Excepted: presenting the encrypted data as a packet type without integrity protection, which the format cannot distinguish from a message that never had any.)',
     ['inputs', 'fault_sequences'],
     'every byte position and kind of modification of every packet of the encrypted message, stripped or swapped packets, wrong passphrases and keys',
     'No test modifies a ciphertext or uses a wrong key.',
     ['pgp/message.py', 'pgp/packets/packets.py'],
     [('modification detection', 'pgp/message.py, pgp/packets/packets.py ModificationDetectionCodePacket'),
      ('session key checks', 'pgp/packets/packets.py decrypt of session key packets')],
     technique=RM, note='')

prop('C09', 'Ciphertext gives away neither keys nor plaintext and never repeats',
     'No session key, plaintext or passphrase-derived key can be read out of the packets of an encrypted message without a recipient secret, every public-key-encrypted session key is properly blinded, and no two encryptions share a session key, random prefix, salt or blinding value. Likewise no two signatures with a discrete-log key share their random component, and no secret key material appears in serialised protected secret keys.',
     ['histories', 'inputs'],
     'sequences of encryptions, signatures and key protections under the same keys, passphrases and plaintexts, observed on the wire',
     'Round-trip tests pass even when the blinding value is constant: the leak is visible only in the ciphertext and across repetitions.',
     ['pgp/message.py', 'pgp/packets/packets.py', 'pgp/utils.py', 'pgp/transferrable_keys.py'],
     [('ElGamal padding cipher', 'pgp/packets/packets.py PKCS115_ElGamal_Cipher'),
      ('random prefix and session keys', 'pgp/packets/packets.py, pgp/message.py'),
      ('signature nonce', 'pgp/utils.py sign_hash')],
     technique='runtime monitoring: offline checker over recorded wire events (freshness, blinding, leak scan)', note='')

prop('C10', 'Every signature made verifies, here and independently',
     'A signature made with an unlocked secret key over any message, user ID, user attribute, key or subkey verifies with the matching public key, before and after being written out and read back, and an independent computation of the signed digest and public-key equation accepts it. The signature carries the requested type, digest, version, issuer and creation time; left unstated, messages are signed one-pass with the digest the key prefers.',
     ['inputs', 'configurations'],
     'algorithms x digests x signature types x signature versions x documents (binary, text with any line endings, empty) x key sizes',
     'Tests verify a few fixed signatures and sign one message with the default digest.',
     ['pgp/message.py', 'pgp/transferrable_keys.py', 'pgp/signature.py', 'pgp/detached_signature.py', 'pgp/utils.py'],
     [('signing', 'pgp/transferrable_keys.py sign; pgp/utils.py sign_hash'),
      ('verification', 'pgp/transferrable_keys.py verify; pgp/utils.py verify_hash'),
      ('signed data', 'to_signable_data of messages, user ids, keys, signatures')],
     technique=RM, note='')

prop('C11', 'A signature over anything else is never accepted',
     'Verification accepts a signature only if the document, signature type, hashed properties, signature values, issuer and key all match what was signed; changing any of them makes verification fail with an error. Text signatures are insensitive to line-ending style and to nothing else.',
     ['inputs', 'fault_sequences'],
     'valid signatures of every kind with every single alteration of document, signed properties, signature type, digest, values, key or target',
     'Tests contain a few accept cases and one altered message; they do not alter the signature, its properties, its type or the key.',
     ['pgp/transferrable_keys.py', 'pgp/signature.py', 'pgp/message.py', 'pgp/utils.py'],
     [('verification', 'pgp/transferrable_keys.py verify; pgp/utils.py verify_hash'),
      ('text canonicalisation', 'pgp/message.py TextMessage')],
     technique=RM, note='')

prop('C12', 'Secret keys open only with their passphrase and close again',
     'A protected secret key can sign or decrypt only between a successful unlock and the next lock; unlocking with a wrong passphrase fails, leaves the key locked and yields no secret values; the unlocking context locks the key again however its body ends. The secret values obtained are the ones originally protected, for every protection algorithm and specifier, and re-serialising a key in any lock state keeps them recoverable with the same passphrase.',
     ['histories', 'inputs', 'fault_sequences'],
     'sequences of unlock, wrong unlock, use, failing use, lock, serialise and re-read over keys of every algorithm, protection cipher, specifier and checksum style',
     'The tests unlock two keys once with the right passphrase and never lock them again.',
     ['pgp/transferrable_keys.py', 'pgp/packets/packets.py', 'pgp/context_managers.py', 'pgp/s2k.py'],
     [('lock and unlock', 'pgp/transferrable_keys.py BaseSecretKey'),
      ('secret key protection', 'pgp/packets/packets.py SecretKeyPacket'),
      ('unlock context', 'pgp/context_managers.py unlocked')],
     technique='runtime monitoring: state-machine monitor over lock/unlock/use histories', note='')

prop('C13', 'Transferable keys survive reading and writing unchanged',
     'Reading any well-formed transferable public or secret key gives an object whose user IDs, attributes, subkeys and signatures are all those present, each attached to the component it belongs to, and writing it out produces the same packets in the same order (trust packets aside, which belong to one keyring only), in the header style asked for (each packet in the one it was read in, if none is), binary or armored. The public half of a secret key equals the corresponding public key and contains no secret material.',
     ['inputs'],
     'keys with any number and order of direct signatures, revocations, user IDs, attributes, subkeys and their certifications, secret or public, any algorithm',
     'Tests read two keys of one shape; they never write one back.',
     ['pgp/transferrable_keys.py', 'pgp/shortcuts.py', 'pgp/armor.py'],
     [('key assembly', 'pgp/transferrable_keys.py from_packets, to_packets, to_public_key'),
      ('shortcuts', 'pgp/shortcuts.py read_key, serialize_key, write_key_file')],
     technique=RM, note='')

prop('C14', 'Malformed transferable keys are refused, well-formed ones accepted',
     'The structural validator for transferable keys accepts every packet sequence that the OpenPGP grammar allows and rejects every sequence that breaks it: a missing or repeated primary key, a component without its required signature, signatures of the wrong type for their position, misplaced packets.',
     ['inputs'],
     'all short sequences of packet kinds and signature types, and single insertions, deletions, swaps and replacements in longer valid sequences',
     'No test calls the validator.',
     ['pgp/transferrable_keys.py'],
     [('validator', 'pgp/transferrable_keys.py validate_transferrable_key')],
     technique='runtime monitoring: executable grammar as oracle over enumerated and mutated packet sequences', note='')

prop('C15', 'Fingerprints and key IDs are computed as OpenPGP defines them',
     'The fingerprint and key ID reported for every key or subkey, public or secret, locked or unlocked, equal the ones defined by OpenPGP for its version, its keygrip equals the one agents know it by, and none of them changes when the key is written, read, locked, unlocked, or reduced to its public half. Signatures and session keys name the key ID of the key that made or receives them.',
     ['inputs', 'histories'],
     'key versions 2 to 4, all algorithms, sizes and creation times, before and after every operation on the key',
     'Tests compare one key ID with another computed by the same code.',
     ['pgp/utils.py', 'pgp/packets/packets.py', 'pgp/transferrable_keys.py'],
     [('fingerprint', 'pgp/utils.py key_packet_fingerprint, key_packet_id; pgp/packets/packets.py PublicKeyPacket')],
     technique=RM, note='')

prop('C16', 'Signature properties read back exactly as they were set',
     'Every property a signature offers (creation and expiration time, issuer, exportable, revocable, trust, regular expressions, notations, preferences, key server, key flags, features, revocation reason, policy, signer, revocation keys, embedded signatures) returns the value last set, after any sequence of sets and after the signature is written out and read back, and setting one property changes no other, neither on the same signature nor on another one read from the same packet. Clearing a property removes it; a value that cannot be represented is refused and changes nothing. Of a signature that is read, only what it signed counts, and the issuer and embedded signatures wherever they are.',
     ['histories', 'inputs'],
     'sequences of property assignments on version 4 signatures with write-and-read in between',
     'No test sets a signature property.',
     ['pgp/signature.py', 'pgp/packets/signature_subpackets.py'],
     [('property accessors', 'pgp/signature.py BaseSignature'),
      ('subpackets', 'pgp/packets/signature_subpackets.py')],
     technique='runtime monitoring: dictionary model against the real signature object over assignment histories', note='')

prop('C17', 'The most recent self-signature decides what a key is for',
     'Expiration, usage flags, algorithm preferences, revocation keys, policy, features and primary user ID mark reported for a key, subkey, user ID or user attribute are those of its own most recent self-signature that is neither expired nor revoked nor marked invalid, whatever the order in which signatures are stored, and never those of a third party or subkey signature nor of its unhashed part, which nobody signed; without one they are unset. A component is reported revoked, with the stated reason, exactly when the key itself revoked it.',
     ['inputs', 'histories'],
     'keys with several self-signatures and foreign signatures of different times, in every order',
     'The fixtures have one self-signature per component and tests never query these attributes.',
     ['pgp/transferrable_keys.py', 'pgp/signature.py'],
     [('self-signature selection', 'pgp/transferrable_keys.py get_most_recent_selfsig, current_self_signatures')],
     technique=RM, note='')

prop('C18', 'A key database behaves as a persistent map of keys',
     'After any sequence of additions, updates and deletions, a key database contains exactly the keys that were added and not deleted, each in its last version; lookups by fingerprint, key ID and user ID find exactly the matching ones; adding a present key or changing an absent one fails and alters nothing. Another database object opened on the same file sees the same contents, and read-only databases are never modified.',
     ['histories', 'crash_points'],
     'histories of add, update, delete, lookup, iterate, reopen over several files, public and secret keys, keys of different sizes and colliding short key IDs',
     'No test touches the database.',
     ['pgp/db/gpg.py'],
     [('keyring file', 'pgp/db/gpg.py Keyring'), ('resources and search', 'pgp/db/gpg.py GPGDatabase, get_resource')],
     technique='runtime monitoring: history against an executable map model', note='')

prop('C19', 'The database lock excludes others and is always released',
     'While one holder has a database locked no other thread, object or process can obtain the lock, and every modification of the file happens under the lock. The lock is released exactly when its holder finishes, also when the operation fails, a stale lock of a dead process does not block forever, and no lock file outlives its holder.',
     ['schedules', 'histories', 'fault_sequences'],
     'interleavings of several threads and processes operating on one file, nested operations, failures inside operations, stale lock files, timeouts',
     'No test touches the lock; single-threaded tests could not observe a violation.',
     ['pgp/db/gpg.py'],
     [('lock file', 'pgp/db/gpg.py Lock')],
     technique='runtime monitoring: mutual-exclusion monitor over event logs of concurrent threads and processes', note='')

prop('C20', 'Key server lookups ask for and return exactly what was meant',
     'Every key server request carries exactly the search term, operation and options asked for, correctly escaped, to the right host, port and path; every entry of a machine-readable index reply becomes one result with the fields the reply states; keys fetched and keys submitted arrive byte for byte, and secret key material is never submitted. Error replies raise an error instead of yielding results.',
     ['inputs'],
     'server URLs x search terms with any characters x index replies with any mix of fields, escapes and flags x HTTP errors',
     'No test covers the key server client.',
     ['pgp/keyserver/hkp.py', 'pgp/keyserver/__init__.py'],
     [('HKP client', 'pgp/keyserver/hkp.py')],
     technique='runtime monitoring: recorded HTTP exchanges checked against an independent HKP model', note='')

prop('C21', 'Passphrase prompts return the typed passphrase and nothing else',
     'A passphrase obtained from an agent or a prompt is exactly what the user entered, for every character and however the reply is split over the connection; requests are escaped so that their text cannot alter the protocol; errors, cancellations and mismatches never yield a passphrase. A cached passphrase is returned only for its own cache id and no longer after being cleared.',
     ['histories', 'inputs', 'fault_sequences'],
     'sequences of get and clear with different ids, prompts, error texts, agent replies split at any byte, error replies, dropped connections',
     'No test covers passphrase entry.',
     ['pgp/pinentry/gpg_agent.py', 'pgp/pinentry/getpass.py'],
     [('agent protocol', 'pgp/pinentry/gpg_agent.py'), ('prompt and cache', 'pgp/pinentry/getpass.py')],
     technique='runtime monitoring: protocol monitor on a scripted agent socket and terminal', note='')

prop('C22', 'Trust-scope regular expressions are recognised per the standard',
     'The check for the restricted regular expressions OpenPGP allows in trust signatures accepts exactly the expressions of that grammar, for every string, and always terminates; a refusal names the first character that nothing after it could make right, or the last one if the end came too early.',
     ['inputs'],
     'all short strings over the special characters and random longer expressions and mutations of them',
     'No test covers it.',
     ['pgp/regex.py'],
     [('validator', 'pgp/regex.py')],
     technique='runtime monitoring: exhaustive short strings against an independent recogniser', note='')

prop('C23', 'Merging two copies of a key keeps everything from both',
     'Merging copies of a key yields the union of their user IDs, attributes, subkeys and signatures, each once and attached to the right component; merging is idempotent and independent of order, and copies of different keys are refused.',
     ['inputs', 'histories'],
     'pairs and triples of copies of one key differing in any subset of components and signatures',
     'No test covers merging.',
     ['pgp/merge.py'],
     [('merge', 'pgp/merge.py')],
     technique=RM, note='')

prop('C24', 'Signed and compressed messages keep their structure and contents',
     'Any nesting of literal, compressed and signed messages, written out and read back, gives the same nesting with the same contents, and one-pass signatures pair up with their trailing signatures in the order the format prescribes. Compressed data produced by independent encoders is read, and what the library compresses independent decoders read. Packets are written in the header style asked for.',
     ['inputs', 'configurations'],
     'nestings of literal, compression (every algorithm and level) and up to several signatures over data of any size, kind and character set',
     'Tests cover a single signature inside zlib compression.',
     ['pgp/message.py', 'pgp/packets/packets.py', 'pgp/utils.py'],
     [('wrappers', 'pgp/message.py SignedMessageWrapper, CompressedMessageWrapper, LiteralMessage'),
      ('compression', 'pgp/utils.py get_compression_instance')],
     technique=RM, note='')

prop('C25', 'User IDs are split into name, comment and address faithfully',
     'For every user ID in the conventional form the reported name, comment and e-mail address are exactly the parts of the text, and for every other text the user ID itself is preserved and parsing neither fails nor hangs.',
     ['inputs'],
     'all user ID texts, including quoting, nested comments, non-ASCII characters and malformed addresses',
     'No test covers user ID parsing.',
     ['pgp/user_id.py', 'pgp/transferrable_keys.py'],
     [('address parser', 'pgp/user_id.py parse_user_id')],
     technique=RM, note='')

prop('C26', 'Signature validation reports revoked, expired and invalid correctly',
     'Validating the signatures of a key, its user IDs, attributes and subkeys marks a signature valid exactly if its values and digest verify over what it is attached to, it dates from after the key and what it signs and not from the future, its type belongs there and the key that made it is permitted to make it (the key itself, a designated revoker, whoever made what is revoked); a subkey that may sign needs its own back signature. With each valid signature it is noted whether the key that made it has expired or been revoked, and in strict mode such signatures and expired ones are refused; revoking the key does not concern signatures that are marked not revocable. Forged revocations and expirations do not count, signatures of unknown keys stay undecided, and each failing signature checked alone raises the error for its own reason.',
     ['inputs', 'histories'],
     'keys with valid, forged, expired, revoked and unknown-issuer signatures, in every combination',
     'No test covers it.',
     ['pgp/signature_verification.py'],
     [('validation', 'pgp/signature_verification.py')],
     technique=RM, note='')

prop('C27', 'Hostile input is contained',
     'Whatever bytes are given to the packet, armor, key and message readers, reading (which leaves decompression and key derivation to later) ends within time and memory proportional to the input, either with an object whose parts all come from the input or with an error; it never hangs, crashes the interpreter, or executes anything. Opening what is compressed or encrypted costs in proportion to what comes out of it.',
     ['inputs', 'fault_sequences'],
     'random bytes, mutated and truncated valid inputs, nested and self-inconsistent lengths',
     'Tests only feed well-formed input.',
     ['pgp/packets/packets.py', 'pgp/packets/parsers.py', 'pgp/armor.py', 'pgp/message.py', 'pgp/transferrable_keys.py'],
     [('readers', 'pgp/packets/parsers.py, pgp/shortcuts.py')],
     technique='runtime monitoring: resource and exception monitor under mutation fuzzing', note='')

prop('C28', 'Nothing others can add to a key changes what it says',
     'Whatever somebody without the secret key adds to a transferable key - unhashed subpackets of any type on its signatures, signatures and revocations of their own on any component naming any issuer, subkeys that the key never bound, signatures by a different key with the same key ID, signatures that cannot be checked - leaves everything reported of the key after validating its signatures as it was without the addition: validity, expiration and revocation of its own signatures and components, designated revokers, usage flags, preferences, primary user ID, and which signature is the most recent self-signature.',
     ['inputs', 'histories'],
     'keys with histories x what is added (unhashed subpackets of every type, forged signatures x claimed issuers, rogue subkeys, colliding version 3 key IDs) x combinations of several additions',
     'The tests check a handful of honest keys; an attacker chooses the combination.',
     ['pgp/signature_verification.py', 'pgp/signature.py', 'pgp/transferrable_keys.py'],
     [('which subpackets count', 'pgp/signature.py BaseSignature._get_subpackets'),
      ('who made a signature', 'pgp/signature_verification.py validate_signatures; pgp/transferrable_keys.py KeySignature.is_self_signature'),
      ('revocations', 'pgp/signature.py BaseSignature._may_revoke, revoked; pgp/signature_verification.py get_revocations')],
     technique=RM, note='')

prop('C29', 'Things compare equal exactly when they say the same',
     'Two packets, signature or user attribute subpackets, string-to-key specifiers, signatures, notations or designated revokers are equal if they were read from the same octets or built from the same values, and unequal as soon as they are of different kinds or would be written as different octets (the order and repetition of the subpackets of a signature packet excepted, which carry no meaning there). Equality is symmetric, != is its opposite, whatever is equal has the same hash where there is one (so that sets and lists find it), and comparing with anything else answers no instead of failing.',
     ['inputs'],
     'all kinds of objects that define equality x pairs that differ in nothing, in one edit of the octets, in the header style or type, or in one attribute x unrelated objects',
     'The tests compare a handful of packets with themselves; that every field takes part in the comparison of every type is not sampled.',
     ['pgp/packets/packets.py', 'pgp/packets/signature_subpackets.py', 'pgp/packets/user_attribute_subpackets.py', 'pgp/s2k.py', 'pgp/signature.py'],
     [('comparison of packets', 'pgp/packets/packets.py __eq__ of every packet class'),
      ('comparison and hashes of subpackets', 'pgp/packets/signature_subpackets.py SignatureSubpacket.__eq__, __hash__; pgp/packets/user_attribute_subpackets.py'),
      ('comparison and hashes of signatures, notations, designated revokers', 'pgp/signature.py'),
      ('comparison of S2K specifiers', 'pgp/s2k.py')],
     technique='runtime monitoring: metamorphic monitor (equality against written octets) over executions of the real code', note='')

prop('C30', 'What is done with one object leaves every other one alone',
     'Independent pieces of work - reading, writing, signing, verifying, encrypting, decrypting, unlocking, deriving keys, compressing, merging, validating - give the same right results when several of them run at the same time in different threads, or step by step in turns in one thread, as when each runs alone. Objects read from the same octets or the same packets, and a secret key and its public half, are separate: unlocking, changing, signing with, merging into or validating one changes nothing of another. Several threads may look at, verify with, sign with and decrypt from one object at the same time without disturbing one another.',
     ['schedules', 'histories'],
     'pairs to quadruples of pieces of work of every kind x thread schedules with injected yields x interleavings of their steps x which of several objects of one key an operation is done to',
     'The tests run one thing at a time, in one thread, on fresh objects.',
     ['pgp/packets/packets.py', 'pgp/s2k.py', 'pgp/cipher/base.py', 'pgp/utils.py', 'pgp/signature.py', 'pgp/transferrable_keys.py', 'pgp/message.py', 'pgp/merge.py', 'pgp/signature_verification.py'],
     [('state held by objects and not by modules or classes', 'pgp/s2k.py, pgp/cipher/base.py, pgp/utils.py, pgp/message.py'),
      ('copies', 'pgp/transferrable_keys.py copy_to, to_public_key; pgp/signature.py copy_to, from_packet; pgp/merge.py')],
     technique='runtime monitoring: oracles of the single pieces of work under thread stress with injected yields and seeded interleavings; before/after monitor of sibling objects', note='')

prop('C31', 'Showing an object or an error never fails, misleads or leaks',
     'The textual form (repr and str) of every key, subkey, user ID, attribute, signature, packet, message, session key, string-to-key specifier and key server result, and of every error and warning, can always be had, whatever the object was read from and whatever state it is in. That of a key, signature, user ID or key server result is one line and names its kind and key ID, user ID (so quoted that no text in it can pass for anything else), signature type and, of a signature, whether it has been found valid or invalid at that moment. No textual form, error, warning or output contains a passphrase, a session key, a secret key value or a decrypted text the operation was given or came upon, whether it succeeded or failed.',
     ['inputs', 'histories'],
     'objects of every kind from well-formed and damaged octets x their states (read, unlocked, locked, validated, invalidated) x operations on secrets that succeed or fail (wrong passphrases, damaged ciphertexts, unknown algorithms, arguments of the wrong type)',
     'No test looks at a textual form of anything but valid packets; what an error says about a secret depends on where it was raised.',
     ['pgp/transferrable_keys.py', 'pgp/signature.py', 'pgp/packets/packets.py', 'pgp/keyserver/hkp.py', 'pgp/s2k.py', 'pgp/message.py'],
     [('textual forms of keys and their components', 'pgp/transferrable_keys.py __repr__ of the classes; pgp/signature.py BaseSignature.__repr__'),
      ('textual forms of packets', 'pgp/packets/packets.py __repr__ of the packet classes'),
      ('textual forms of key server results', 'pgp/keyserver/hkp.py HKPResult.__repr__, HKPUserIdResult.__repr__'),
      ('errors around secrets', 'pgp/transferrable_keys.py unlock, lock; pgp/message.py; pgp/s2k.py')],
     technique='runtime monitoring: taint-style output monitor (all known forms of every secret are searched for in all text produced) and state-against-text monitor over executions of the real code', note='')

prop('C32', 'What a field cannot hold is refused, never written as something else',
     'Whatever value is put into a field of a packet, subpacket, key, message, string-to-key specifier or signature property - too large, negative, too long, too short, not expressible in the encoding of the field, outside its range - either it is refused when it is set or at the latest when the object is written, or what is written can be read and says that very value, with every other field as it was. A number is never wrapped or clipped, a text or octet string never cut off or padded, a length never mistaken, a moment never turned into "never" (the expiration of version 2 and 3 keys, which know days only, is rounded to a day), and nothing is written that the library itself cannot read.',
     ['inputs'],
     'fields of every packet type, subpacket type, signature property, key, literal data and string-to-key specifier x values at, just outside and far outside what the field can hold',
     'The tests write values that fit; what becomes of those that do not is decided separately by every field.',
     ['pgp/utils.py', 'pgp/packets/packets.py', 'pgp/packets/signature_subpackets.py', 'pgp/signature.py', 'pgp/message.py', 'pgp/s2k.py', 'pgp/transferrable_keys.py'],
     [('numbers and texts of fixed width', 'pgp/utils.py int_to_2byte, int_to_4byte, int_to_8byte, hex_to_bytes, int_to_mpi, int_to_s2k_count'),
      ('contents of packets', 'pgp/packets/packets.py content of every packet class'),
      ('contents of subpackets', 'pgp/packets/signature_subpackets.py content of every subpacket class'),
      ('signature properties', 'pgp/signature.py property setters'),
      ('salts', 'pgp/s2k.py SaltedS2K.__bytes__')],
     technique='runtime monitoring: written-versus-given monitor (every value the library accepts for a field is compared with what it reads back from the octets it wrote) over boundary and out-of-range workloads', note='')

prop('C33', 'Operations leave the process, the file system and what they were given as they found them',
     'Whatever an operation of the library is given, whether it succeeds, fails because of its input or of the other side of a connection, or is cut short by an error of the operating system or an interruption, afterwards: every file and agent connection it opened is closed (not left to the garbage collector; connections to key servers are up to the HTTP library), no thread or child process, lock or temporary file of its own is left, no file other than the one it was asked to write is created, changed or removed, nothing was printed, the settings of the process (working directory, umask, environment, signal handlers, warning filters, streams, locale, time-outs and the like) are as they were, and the objects and buffers it was given as input (data to sign or encrypt, keys to add or merge, recipients, session keys, subpackets, headers) still have the value they had.',
     ['inputs', 'faults'],
     'reading and writing files of keys and messages, octets and armour, all operations on keyring and gdbm databases, pass phrase agents, prompts, key servers, cryptographic operations x well-formed, damaged and missing input, misbehaving peers, errors of the operating system and interruptions at each call',
     'The tests look at what an operation returns; what it leaves behind shows only by comparing the whole state of the process and of its directories before and after each of many successful, failing and interrupted operations.',
     ['pgp/shortcuts.py', 'pgp/db/gpg.py', 'pgp/pinentry/gpg_agent.py', 'pgp/pinentry/getpass.py', 'pgp/keyserver/hkp.py', 'pgp/message.py', 'pgp/transferrable_keys.py', 'pgp/merge.py', 'pgp/signature_verification.py'],
     [('files of keys and messages', 'pgp/shortcuts.py read_message_file, read_key_file, write_key_file'),
      ('databases', 'pgp/db/gpg.py get_resource, Keyring, GDBM'),
      ('agents', 'pgp/pinentry/gpg_agent.py connect, disconnect'),
      ('copies of what is merged', 'pgp/merge.py merge')],
     technique='runtime monitoring: before/after state monitor (descriptors, threads, children, locks, process settings, directory trees, arguments, output) around every operation under hostile inputs, peers and injected faults', note='')
