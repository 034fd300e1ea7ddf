# Core of the Ruby side of the monitoring harness: same command line and log format as core.cc.
# A property is a script that requires this file, defines RULE and a Case class, and calls Core.main.
require 'json'
require 'fiddle'
require 'zlib'

class CaseFailed < StandardError; end

class Rng
    MASK = (1 << 64) - 1
    def initialize(seed); @s = seed & MASK end
    def next
        @s = (@s + 0x9E3779B97F4A7C15) & MASK
        z = @s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & MASK
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & MASK
        z ^ (z >> 31)
    end
    def below(n); n > 0 ? self.next % n : 0 end
    def range(a, b); a + below(b - a + 1) end
    def chance(n, d); below(d) < n end
    def pick(a); a[below(a.size)] end
    def bytes(n); Array.new(n) { below(256) }.pack('C*') end
    def shuffle(a)
        a = a.dup
        (a.size - 1).downto(1) { |i| j = below(i + 1); a[i], a[j] = a[j], a[i] }
        a
    end
end

class Ctx
    attr_reader :seed, :thorough, :verbose
    attr_accessor :idx, :rng
    def initialize(seed, thorough, verbose, out, progress)
        @seed, @thorough, @verbose, @out, @progress = seed, thorough, verbose, out, progress
        @counts, @samples, @sigs, @reported = Hash.new(0), [], {}, Hash.new(0)
    end

    # records a violation; key names the kind of failure and must be stable
    def report(key, msg)
        count("failures/#{key}")
        return if (@reported[key] += 1) > 5 && !verbose
        emit(t: 'viol', case: idx, key: key, msg: clean(msg)[0, 4000], desc: (@desc || '')[0, 4000])
    end
    def fail(key, msg); report(key, msg); raise CaseFailed end
    # fails the case unless ok holds
    def ck(ok, key, msg = nil)
        @counts['checks'] += 1
        return if ok
        fail(key, msg || yield)
    end
    def sig(obj); @sigs[Zlib.crc32(obj.to_s)] = true end
    def count(name, n = 1); @counts[name] += n end
    def sample(text); @samples << clean(text)[0, 1500] if @samples.size < 3 end
    # describes what is being done; survives a crash of the process
    def desc(text)
        @desc = clean(text)
        STDERR.puts "case #{idx}: #{@desc}" if verbose
        @progress.pwrite(@desc.byteslice(0, 16000) + "\0", 16) if @progress
    end
    # one more step of the current case
    def step(text)
        d = (@desc || '') + "; " + clean(text)
        d = "..." + d[-6000..-1] if d.size > 8000
        @desc = d
        STDERR.puts "    #{clean(text)}" if verbose
        @progress.pwrite(@desc.byteslice(0, 16000) + "\0", 16) if @progress
    end
    def position(current, done); @progress.pwrite([current, done].pack('QQ'), 0) if @progress end
    def reset; @desc = ''; @progress.pwrite("\0", 16) if @progress end

    def clean(s)
        s = s.dup.force_encoding('BINARY')
        s.gsub(/[^\x20-\x7e\n]/n) { |c| "\\x%02x" % c.ord }.force_encoding('UTF-8')
    end
    def emit(obj)
        @out.syswrite(JSON.generate(obj) + "\n")
    end
    def flush
        emit(t: 'stat', counts: @counts, samples: @samples, sigs: @sigs.keys)
        @counts, @samples, @sigs = Hash.new(0), [], {}
    end
end

module Core
    MASK = (1 << 64) - 1

    def self.mix(a, b)
        Rng.new((a * 1000003 + b) & MASK).next
    end

    def self.main(rule, klass)
        from, to, seed, thorough, verbose, out, progress = 0, 1, 1, false, false, STDERR, nil
        args = ARGV.dup
        until args.empty?
            case a = args.shift
            when '--from' then from = Integer(args.shift)
            when '--to' then to = Integer(args.shift)
            when '--seed' then seed = Integer(args.shift)
            when '--case' then from = Integer(args.shift); to = from + 1; verbose = true
            when '--thorough' then thorough = true
            when '--rule' then puts rule; $stdout.flush; exit! 0
            when '--out' then out = File.open(args.shift, 'a')
            when '--progress' then progress = File.open(args.shift, File::RDWR | File::CREAT); progress.truncate(16 + 16384)
            else STDERR.puts "unknown argument #{a}"; exit! 91
            end
        end
        ctx = Ctx.new(seed, thorough, verbose, out, progress)
        ctx.position(MASK, 0)
        begin
            require 'typelib'
            klass.setup(ctx) if klass.respond_to?(:setup)
        rescue Exception => e
            STDERR.puts "setup failed: #{e.class}: #{e.message}", e.backtrace.first(5)
            STDERR.flush
            exit! 92
        end
        (from...to).each do |i|
            ctx.idx = i
            ctx.rng = Rng.new(mix(seed, i))
            ctx.reset
            ctx.position(i, i)
            begin
                klass.new(ctx).run
            rescue CaseFailed
            rescue SystemExit, Interrupt, NoMemoryError
                raise
            rescue Exception => e
                at = (e.backtrace || []).find { |l| l.start_with?(ENV['VERIF_REPO'].to_s + '/') }.to_s[/`([^']*)'/, 1]
                ctx.report("unexpected:#{e.class}#{at && ":#{at}"}", "the case ended with #{e.class}: #{e.message}\n#{(e.backtrace || []).first(8).join("\n")}")
            end
            ctx.count('cases')
            ctx.position(i, i + 1)
            ctx.flush if (i - from) % 500 == 499
        end
        ctx.flush
        ctx.position(MASK, to)
        ctx.emit(t: 'end')
        STDERR.flush
        exit! 0
    end
end

# What the block raised, nil when it returned
def raised
    yield
    nil
rescue CaseFailed
    raise
rescue StandardError, NotImplementedError => e
    e
end
def raw_memory(address, size); Fiddle::Pointer.new(address)[0, size] end
